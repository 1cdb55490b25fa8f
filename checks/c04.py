"""C04: what a network client asks for is what its caller asked for."""
from explore import Explorer
from terms import alts, short, show
import fwd
import wire

EXPLAIN = ("Every operation of the asynchronous and the blocking network client is explored path by path up to the request it "
           "sends; the request value is reconstructed from compiler MIR and compared with the operation's parameters.")
RULE = ("Each operation sends exactly one request on every successful path, of the request type the protocol defines for it; every "
        "field of the request is the caller's parameter of that meaning (or the database name of the handle, or the fixed value "
        "that tells adding from removing); an error answer never becomes a success; the request travels with the session of the "
        "handle it was made on.")
ASSUME = ["The table of operations and request types (wire.py) was confirmed by hand against the networking protocol's documentation."]

CL = "bonsaidb_client::client::"
TYPES = {
    (CL + "AsyncClient", "AsyncStorageConnection"): wire.SC,
    (CL + "sync::BlockingClient", "StorageConnection"): wire.SC,
    (CL + "remote_database::AsyncRemoteDatabase", "AsyncConnection"): wire.DB,
    (CL + "remote_database::AsyncRemoteDatabase", "AsyncLowLevelConnection"): wire.DB,
    (CL + "remote_database::AsyncRemoteDatabase", "AsyncKeyValue"): wire.DB,
    (CL + "remote_database::AsyncRemoteDatabase", "AsyncPubSub"): wire.DB,
    (CL + "sync::BlockingRemoteDatabase", "Connection"): wire.DB,
    (CL + "sync::BlockingRemoteDatabase", "LowLevelConnection"): wire.DB,
    (CL + "sync::BlockingRemoteDatabase", "KeyValue"): wire.DB,
    (CL + "sync::BlockingRemoteDatabase", "PubSub"): wire.DB,
}
FREE = {"admin", "database", "storage", "schematic"}
SEND = {"send_api_request", "send_blocking_api_request", "invoke_api_request", "invoke_blocking_api_request"}


def flatten(t, pre=""):
    if t.k == "agg" and t.d[0].startswith(("bonsaidb_core::networking::", "bonsaidb_core::connection::Database")):
        out = {}
        for f, v in t.d[2]:
            out.update(flatten(v, pre + f + "."))
        if not t.d[2]:
            out = {}
        return out
    return {pre[:-1]: t}


def check(ctx):
    F = ctx.F
    TT = ctx.terms()
    n = 0
    seen = {}
    for (ty, tr), kind in TYPES.items():
        im = [i for i in F.impls if i.get("self") == ty and short((i.get("trait") or "").split("<")[0]) == tr]
        if not im:
            ctx.fail("anchor:%s:%s" % (short(ty), tr), "", "the client no longer implements this interface")
            continue
        for name, h, th in im[0]["items"]:
            b = F.bodies.get(h)
            if b is None or b.kind != "fn" or name in FREE:
                continue
            seen.setdefault((kind, tr.startswith("Async")), set()).add(name)
            op = wire.OPS.get((kind, name))
            if op is None:
                ctx.fail("unknown-operation:%s::%s" % (short(ty), name), ctx.where(b), "the protocol table does not know this operation")
                continue
            n += 1
            one(ctx, F, TT, ty, name, b, kind, op)
    for k in (wire.SC, wire.DB):
        for a in (True, False):
            miss = {m for (kk, m) in wire.OPS if kk == k} - seen.get((k, a), set())
            ctx.ob("complete:%s:%s" % (k, "async" if a else "blocking"), not miss, "", "operations without an implementation here: %s" % sorted(miss))
    ctx.floor("client operations", n, 60)
    subscribers(ctx, F, TT)
    session(ctx, F, TT)


def one(ctx, F, TT, ty, name, b, kind, op):
    nm = "%s::%s" % (short(ty), name)
    req, fields = op[0], op[1]
    fixed = op[2] if len(op) > 2 else {}

    def target(c):
        return short(c.path) in SEND and "bonsaidb_client" in c.path

    def args(c):
        out = []
        for a in alts(TT.norm(c.arg(0))):
            r, f = fwd.unwrap(a)
            out.append((fwd.is_par(r, b, 1), "sent through %s, not through this handle" % show(a)))
        t = TT.norm(c.arg(1))
        for a in alts(t):
            if a.k == "con" and str(a.d[0]).endswith("::" + req):
                continue
            if a.k != "agg" or a.d[0] != wire.NET + req:
                out.append((False, "sends %s, the operation's request is %s" % (show(a)[:80], req)))
                continue
            got = flatten(a)
            want = {f: i + 2 for i, f in enumerate(fields)}
            db = wire.dbfield(kind, fields)
            for f, v in got.items():
                if f in want:
                    out.append((wire.is_field(TT, v, b, want[f], ""), "field %s is %s, not the caller's parameter" % (f, show(v))))
                elif f == db:
                    ok = all(fwd.is_par(fwd.unwrap(x)[0], b, 1) and fwd.unwrap(x)[1][-1:] == ("name",) for x in alts(v))
                    out.append((ok, "the database is %s, not the handle's own" % show(v)))
                elif f in fixed:
                    out.append((v.k == "con" and bool(v.d[0]) == fixed[f] and v.d[0] in (0, 1, True, False), "field %s is %s" % (f, show(v))))
                else:
                    out.append((False, "field %s is not known to the protocol table" % f))
            miss = (set(want) | ({db} if db else set()) | set(fixed)) - set(got)
            out.append((not miss, "fields %s are missing" % sorted(miss)))
        return out
    fwd.forward(ctx, TT, b, nm, SEND, target, args, True)


SUBS = {
    (CL + "remote_database::pubsub::AsyncRemoteSubscriber", "AsyncSubscriber"): {
        "subscribe_to_bytes": ("SubscribeTo", {"topic": 2}), "unsubscribe_from_bytes": ("UnsubscribeFrom", {"topic": 2})},
    (CL + "sync::BlockingRemoteSubscriber", "Subscriber"): {
        "subscribe_to_bytes": ("SubscribeTo", {"topic": 2}), "unsubscribe_from_bytes": ("UnsubscribeFrom", {"topic": 2})},
}


def subscribers(ctx, F, TT):
    for (ty, tr), ms in SUBS.items():
        for m, (req, fs) in ms.items():
            b = None
            for i in F.impls:
                if i.get("self") == ty and short((i.get("trait") or "").split("<")[0]) == tr:
                    for n, h, th in i["items"]:
                        if n == m:
                            b = F.bodies.get(h)
            if b is None:
                ctx.fail("anchor:%s::%s" % (short(ty), m), "", "not found")
                continue

            def target(c):
                return short(c.path) in SEND and "bonsaidb_client" in c.path

            def args(c, b=b, req=req, fs=fs):
                out = []
                for a in alts(TT.norm(c.arg(1))):
                    if a.k != "agg" or a.d[0] != wire.NET + req:
                        out.append((False, "sends %s, the operation's request is %s" % (show(a)[:80], req)))
                        continue
                    for f, v in flatten(a).items():
                        if f in fs:
                            out.append((wire.is_field(TT, v, b, fs[f], ""), "field %s is %s" % (f, show(v))))
                        else:
                            want = {"database": "database", "subscriber_id": "id"}[f]
                            ok = all(fwd.is_par(fwd.unwrap(x)[0], b, 1) and fwd.unwrap(x)[1][-1:] == (want,) for x in alts(v))
                            out.append((ok, "field %s is %s, not the subscriber's own" % (f, show(v))))
                return out
            fwd.forward(ctx, TT, b, "%s::%s" % (short(ty), m), SEND, target, args, True)


def session(ctx, F, TT):
    """The payload's session is the one of the client handle the request is made on; name and bytes are passed on."""
    b = ctx.need(CL + "AsyncClient::send_request_without_confirmation")
    if b is None:
        return
    from explore import Explorer

    class R:
        n = 0

        def monitored(self, p):
            return short(p) == "send" and "flume" in p

        def call(self, ps, c):
            R.n += 1
            t = TT.norm(c.arg(1))
            found = False
            for x in TT.walk(t, 0):
                if x.k == "agg" and x.d[0] == wire.NET + "Payload":
                    found = True
                    d = dict(x.d[2])
                    for a in alts(d["session_id"]):
                        r, f = fwd.unwrap(a)
                        ctx.ob("payload:session", fwd.is_par(r, b, 1) and "session" in f and f[-1] == "id", c.where(), "session is %s" % show(a))
                    ctx.ob("payload:name", wire.is_field(TT, d["name"], b, 2, ""), c.where(), "name is %s" % show(d["name"]))
                    ctx.ob("payload:value", wire.is_field(TT, d["value"], b, 3, ""), c.where(), "value is %s" % show(d["value"]))
                    ids = [y for y in TT.walk(d["id"], 3) if y.k == "call" and short(y.d[0]) == "fetch_add"]
                    ctx.ob("payload:id", bool(ids), c.where(), "the request id is %s, not a fresh number" % show(d["id"]))
            ctx.ob("payload:built", found, c.where(), "what is queued is %s" % show(t)[:100])
            return [(ps, None)]
    ex = Explorer(F, TT, R())
    ex.run(b, 0)
    ctx.ob("payload:queued", R.n > 0, ctx.where(b), "no request is queued for the connection")
    ctx.states += ex.nstates
    # each API request: its own name and bytes; the response comes from that request
    for m in ("send_api_request", "send_blocking_api_request", "invoke_blocking_api_request"):
        bb = ctx.need(CL + "AsyncClient::" + m)
        if bb is None:
            continue

        def target(c):
            return short(c.path) in ("send_request_async", "send_request", "send_request_without_confirmation")

        def args(c, bb=bb):
            n = c.arg(1)
            return [(all(a.k == "call" and short(a.d[0]) == "name" for a in alts(n)), "the request is sent as %s" % show(n)),
                    (any(x.k == "par" and x.d[0] == bb.h and x.d[1] == 2 for x in TT.walk(c.arg(2), 2)), "the bytes sent are %s" % show(c.arg(2)))]
        fwd.forward(ctx, TT, bb, "AsyncClient::" + m, {"send_request_async", "send_request", "send_request_without_confirmation"}, target, args, True)
