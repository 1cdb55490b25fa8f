"""C05: every request gets its own response."""
from terms import alts, short, show
from explore import res_ok, res_err
import fwd
import proto
import wire

EXPLAIN = ("The client's connection workers (QUIC and websocket) and the server's request loop are explored path by path over "
           "compiler MIR, tracking the lock on the table of outstanding requests (exact guard drops), sends, registrations and answers.")
RULE = ("Client: a request is put on the wire only while the table of outstanding requests is locked, and is registered under its "
        "own id before that lock is released (or before it is sent); a response removes the entry with the response's id and its "
        "value is sent to exactly that entry's caller, once; when a connection ends every outstanding entry is drained and answered "
        "with an error, subscribers of the connection are ended, and no path leaves the connection without that. Server: every "
        "request taken from the queue is answered exactly once, under the request's own name, id and session, executed with the "
        "session the request names on that connection (or the default session), and its slot in the connection's limit is released.")
ASSUME = ["flume channels, the tokio runtime and fabruic's streams deliver in order and at most once.",
          "Payload serialization does not fail.",
          "Handlers registered by applications do not panic."]

C = "bonsaidb_client::client::"
LOCK = ["async_lock::mutex::Mutex::<T>::try_lock", "async_lock::mutex::Mutex::<T>::lock", "tokio::sync::mutex::Mutex::<T>::lock",
        "tokio::sync::mutex::Mutex::<T>::try_lock"]
SENDW = ["fabruic::quic::connection::sender::Sender::<T>::send", "futures_util::sink::SinkExt::send", "futures_util::sink::SinkExt::feed"]
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
HM2 = "std::collections::hash::map::HashMap::<K, V, S>::"
FS = ["flume::Sender::<T>::send", "flume::Sender::<T>::send_async", "flume::Sender::<T>::try_send"]


def hm(*n):
    return [p + x for p in (HM, HM2) for x in n]


def guard_ty(ty):
    s = ty if isinstance(ty, str) else ty.s
    return s.split("<")[0].endswith("::MutexGuard") and "PendingRequest" in s


def origin(TT, t):
    """The value a term is taken from: root and fields, conversions looked through."""
    t = TT.norm(t)
    while t.k == "call" and short(t.d[0]) in ("expect", "unwrap", "clone", "to_owned", "deref", "borrow") and t.d[1]:
        t = TT.norm(t.d[1][0])
    return t


def check(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={b.path for n in ("assume_session",) for b in F.find("::" + n)})
    sends = 0
    for p, loop in ((C + "quic_worker::connect_and_process", False), (C + "quic_worker::process_requests", False),
                    (C + "tungstenite_worker::reconnecting_client_loop", True), (C + "tungstenite_worker::request_sender", False)):
        b = ctx.need(p)
        if b is not None:
            sends += register(ctx, TT, b, p[len(C):])
    ctx.floor("wire sends", sends, 4)
    for p in ("quic_worker::process_requests", "quic_worker::process", "tungstenite_worker::request_sender", "tungstenite_worker::response_processor"):
        b = ctx.need(C + p)
        if b is not None:
            never_ok(ctx, TT, b, p)
    for p in ("quic_worker::connect_and_process", "tungstenite_worker::reconnecting_client_loop"):
        b = ctx.need(C + p)
        if b is not None:
            cleanup(ctx, TT, b, p)
    for p in ("quic_worker::reconnecting_client_loop", "tungstenite_worker::reconnecting_client_loop"):
        b = ctx.need(C + p)
        if b is not None:
            reconnect(ctx, TT, b, p)
    for p in ("quic_worker::process", "tungstenite_worker::response_processor"):
        b = ctx.need(C + p)
        if b is not None:
            processing(ctx, TT, b, p)
    response(ctx, TT)
    disconnect(ctx, TT)
    unique(ctx, TT)
    server_loop(ctx, TT)
    server_worker(ctx, TT)
    server_queue(ctx, TT)
    api_name(ctx, TT)


def halves(b):
    """The two halves of a connection, which are explored on their own."""
    return b.path.startswith((C + "quic_worker::process", C + "tungstenite_worker::request_sender", C + "tungstenite_worker::response_processor",
                              C + "process_response_payload"))


def register(ctx, TT, root, name):
    """held: lock held; st: n(one) s(ent, unregistered) r(egistered) b(oth)"""
    def step(ps, l, c):
        held, st, what = ps
        if l == "lock":
            if short(c.path) == "try_lock":
                return [((True, st, what), {(): 1}), (ps, {(): 0})]
            return [((True, st, what), {})]
        if l == "send":
            t = c.arg(1)
            reqs = {show(x) for x in TT.walk(t, 0) if x.k == "fld" and x.d[1] == "request"}
            if not reqs and not any(x.k == "fld" for x in TT.walk(t, 0)):
                return None
            good = [((held, "b" if st == "r" else "s", frozenset(reqs)), res_ok()), (ps, res_err())]
            if st not in ("r",) and not held:
                ctx.fail("%s:send" % name, c.where(), "a request is sent while the table of outstanding requests is not locked and the request is not in it: its response can be lost")
                return []
            return good
        if l == "insert":
            if "PendingRequest" not in argty(c, 0) and "u32" not in argty(c, 0):
                return None
            k, v = TT.norm(c.arg(1)), TT.norm(c.arg(2))
            ko = origin(TT, k)
            r = show(v)
            ok = show(ko) in {r + ".request.id", r + ".request.id.0"} or any(
                x.k == "fld" and x.d[1] == "id" and show(x.d[0]) == r + ".request" for x in TT.walk(ko, 0))
            ctx.ob("%s:key" % name, ok, c.where(), "the request is registered under %s" % show(ko)[:140])
            if st == "s":
                same = {r + ".request"} & what or any(r + ".request" in w for w in what)
                ctx.ob("%s:same" % name, bool(same), c.where(), "the request registered (%s) is not the one sent (%s)" % (r[:80], sorted(what)))
            ctx.ob("%s:locked" % name, held, c.where(), "the table changes without its lock")
            return [((held, "b" if st == "s" else "r", what), {})]
        if l == "recv":
            ctx.ob("%s:registered" % name, st in ("n", "b"), c.where(), "the next request is awaited although one was sent and not registered")
            return [((held, "n", frozenset()), res_ok()), ((held, "n", frozenset()), res_err())]
        return None

    def drop(ps, st_, place, ty, line, ex):
        held, st, what = ps
        if guard_ty(ty):
            if st == "s":
                ctx.fail("%s:unlocked-before-registered" % name, "%s:%s" % (root.file, line),
                         "the table is unlocked after a request was sent and before it was registered: its response can arrive first and be dropped")
                return None
            return (False, st, what)
        return ps

    def ret(ps, val, st, ex):
        ctx.ob("%s:end" % name, ps[1] != "s", ctx.where(root), "ends with a request sent and not registered")
    r = proto.run(ctx, TT, root, "register:" + name, {"lock": LOCK, "send": SENDW, "insert": hm("insert"), "recv": ["recv_async"]},
                  step, (False, "n", frozenset()), need=("lock", "send", "insert"), ret=ret, drop=drop, tracked=guard_ty, stop=lambda b: halves(b) and not b.path.startswith(root.path))
    return r.n.get("send", 0)


def argty(c, i):
    o = c.args[i]
    if o[0] in ("c", "m"):
        return c.fr.body.locals[o[1][0]].s
    return ""


def never_ok(ctx, TT, root, name):
    """The joined halves of a connection end only with an error, so that the other half is stopped too."""
    def ret(ps, val, st, ex):
        ctx.ob("ends-with-error:%s" % name, val.get(()) == 1, ctx.where(root), "this half of a connection can end without an error, leaving the other half waiting")
    proto.run(ctx, TT, root, "half:" + name, {"x": ["recv_async", "next"]}, lambda ps, l, c: None, 0, ret=ret)


def cleanup(ctx, TT, root, name):
    def step(ps, l, c):
        if l == "insert":
            return [("open", {})] if "PendingRequest" in argty(c, 0) or "u32" in argty(c, 0) else None
        if l == "clean":
            return [("clean", {})]
        if l == "recv":
            ctx.ob("cleanup:%s:next" % name, ps != "open", c.where(), "the next connection is made while requests of the last one are still waiting")
            return [("none", res_ok()), ("none", res_err())]
        return None

    def branch(ps, st, o, src, val, ex):
        if ps == "open" and src is not None and val == 0:
            ty = st.fr.body.locals[src[0]].peel()
            if ty.s.startswith("core::result::Result<((), ())"):
                return "joined"     # excluded: both halves end only with an error
        return ps

    def ret(ps, val, st, ex):
        ctx.ob("cleanup:%s:return" % name, ps != "open", ctx.where(root), "leaves the connection without answering the requests that are still waiting")
    proto.run(ctx, TT, root, "cleanup:" + name, {"insert": hm("insert"), "clean": [C + "disconnect_pending_requests"], "recv": ["recv_async"]},
              step, "none", need=("insert", "clean"), ret=ret, branch=branch,
              stop=halves)


def reconnect(ctx, TT, root, name):
    """Before another connection is opened: subscribers of the last one ended, and the connection counted."""
    def step(ps, l, c):
        cleared, counted = ps
        if l == "clear":
            return [((True, counted), {})]
        if l == "recv":
            ctx.ob("subscribers:%s" % name, cleared, c.where(), "waits for the next request after a connection was lost without ending that connection's subscribers")
            return [((True, False), res_ok()), ((True, False), res_err())]
        if l == "count":
            return [((cleared, True), {})]
        if l == "connect":
            ctx.ob("counted:%s" % name, counted, c.where(), "a connection is opened without being counted: sessions and subscribers of the last one look valid")
            return [((False, counted), {})]
        if l == "resp":
            ok = all(a.k == "agg" and a.d[1] == "Err" for a in alts(TT.norm(c.arg(1))))
            ctx.ob("failed:%s" % name, ok, c.where(), "a request that was not sent is answered with %s" % show(c.arg(1))[:80])
            return [(ps, {})]
        return None
    proto.run(ctx, TT, root, "reconnect:" + name, {
        "clear": [C + "SubscriberMap::clear", "bonsaidb_client::client::SubscriberMap::clear"], "recv": ["recv_async"],
        "count": ["fetch_add"], "connect": ["connect_async", C + "quic_worker::connect"], "resp": FS}, step, (False, False),
        need=("clear", "recv", "count", "connect"),
        stop=lambda b: halves(b) or b.path.startswith(C + "disconnect_pending_requests"))


def processing(ctx, TT, root, name):
    """Every payload received is handed on, unless it is an error."""
    def step(ps, l, c):
        if l == "next":
            ctx.ob("processing:%s:handed-on" % name, ps != "got", c.where(), "a received payload is not looked at before the next one is awaited")
            return [("got", {(): 1}), ("end", {(): 0})]
        if l == "proc":
            return [("done", {})]
        return None

    def branch(ps, st, o, src, val, ex):
        # a message of another kind than Binary carries no payload
        if ps == "got" and src is not None and st.fr.body.locals[src[0]].peel().adt and "Message" in st.fr.body.locals[src[0]].peel().adt:
            names = variants(ctx.F, st.fr.body.locals[src[0]].peel().adt)
            if names and val is not None and val < len(names) and names[val] != "Binary":
                return "other"
            if not names and val != 1:
                return "other"
        return ps
    proto.run(ctx, TT, root, "processing:" + name, {"next": ["futures_util::stream::stream::StreamExt::next"], "proc": [C + "process_response_payload"]},
              step, "none", need=("next", "proc"), branch=branch)


def variants(F, adt):
    a = F.adts.get(adt)
    return [v[0] for v in a["variants"]] if a else None


def response(ctx, TT):
    b = ctx.need(C + "process_response_payload")
    if b is None:
        return
    P = lambda t, f: all(wire.is_field(TT, a, b, 1, f) for a in alts(origin(TT, t)))

    def step(ps, l, c):
        if l == "remove":
            t = origin(TT, c.arg(1))
            ok = any(x.k == "fld" and x.d[1] == "id" and fwd.is_par(x.d[0], b, 1) for x in TT.walk(t, 0)) and t.k in ("fld", "elem")
            ctx.ob("response:key", ok, c.where(), "looks up the request with %s, not with the id of the response" % show(t))
            return [("found", {(): 1}), ("absent", {(): 0})]
        if l == "send":
            ctx.ob("response:once", ps == "found", c.where(), "an answer is sent %s" % ("twice" if ps == "sent" else "to a request that was not looked up"))
            r = show(TT.norm(c.arg(0)))
            ctx.ob("response:caller", any(x.k == "call" and short(x.d[0]) == "remove" for x in TT.walk(c.arg(0), 1)) and ".responder" in r, c.where(),
                   "answers %s, not the request that was removed" % r[:120])
            v = c.arg(1)
            ctx.ob("response:value", any(x.k == "fld" and x.d[1] == "value" and fwd.is_par(x.d[0], b, 1) for x in TT.walk(v, 1)), c.where(),
                   "the answer is %s, not the response's value" % show(v)[:120])
            return [("sent", {})]
        if l == "callback":
            v = c.arg(1)
            ctx.ob("response:callback", any(x.k == "fld" and x.d[1] == "value" and fwd.is_par(fwd.unwrap(x)[0], b, 1) for x in TT.walk(v, 1)), c.where(),
                   "the callback is given %s" % show(v)[:100])
            k = c.arg(0)
            ctx.ob("response:callback-name", any(x.k == "call" and short(x.d[0]) == "get" and any(
                y.k == "fld" and y.d[1] == "name" and fwd.is_par(y.d[0], b, 1) for y in TT.walk(x.d[1][1], 1)) for x in TT.walk(k, 2)), c.where(),
                "the callback is chosen by %s" % show(k)[:100])
            return [(ps, {})]
        return None

    def branch(ps, st, o, src, val, ex):
        if src is not None and ps in ("start", "noid"):
            for a in alts(TT.norm(ex.term(st, ("c", src)))):
                r, f = fwd.unwrap(a)
                if fwd.is_par(r, b, 1) and f == ("id",):
                    return "withid" if val == 1 else "noid"
        return ps

    def ret(ps, val, st, ex):
        ctx.ob("response:delivered", ps in ("sent", "absent", "noid"), ctx.where(b), "a response can be dropped although its request is waiting (%s)" % ps)
    proto.run(ctx, TT, b, "response", {"remove": hm("remove"), "send": FS, "callback": ["response_received"]}, step, "start",
              need=("remove", "send", "callback"), ret=ret, branch=branch)


def disconnect(ctx, TT):
    b = ctx.need(C + "disconnect_pending_requests")
    if b is None:
        return

    def step(ps, l, c):
        if l == "drain":
            return [("drained", None)]
        if l == "next":
            if ps == "start":
                return None
            ctx.ob("disconnect:each", ps != "item", c.where(), "an outstanding request is dropped without an answer")
            return [("item", {(): 1}), ("end", {(): 0})]
        if l == "send":
            ctx.ob("disconnect:once", ps in ("item", "drained"), c.where(), "answers without an outstanding request")
            ok = all(a.k == "agg" and a.d[1] == "Err" for a in alts(TT.norm(c.arg(1))))
            ctx.ob("disconnect:error", ok, c.where(), "an unanswered request ends with %s" % show(c.arg(1))[:80])
            return [("answered", {})]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("disconnect:all", ps in ("end", "answered"), ctx.where(b), "returns without answering the outstanding requests")
    proto.run(ctx, TT, b, "disconnect", {"drain": hm("drain") + ["into_iter", "take"], "next": [proto.ITER], "send": FS}, step, "start",
              need=("drain", "send"), ret=ret)


SV = "bonsaidb_server::server::CustomServer::<B>::"


def server_loop(ctx, TT):
    """handle_client_requests: the response carries the request's id and session."""
    b = ctx.need(SV + "handle_client_requests")
    if b is None:
        return

    def recvd(t):
        """the payload received from the queue, and the field taken of it"""
        r, f = fwd.unwrap(origin(TT, t))
        return f

    def step(ps, l, c):
        if l == "take":
            return [((True, False), {(): 1}), (ps, {(): 0})] if False else None
        if l == "recv":
            return None
        if l == "go":
            reqs = c.arg(1)
            ctx.samples.append(show(reqs)[:200])
            # the callback
            for x in alts(TT.norm(c.arg(2))):
                if x.k == "clo":
                    callback(ctx, TT, c, x, reqs)
                    return [(1, res_ok()), (1, res_err())]
            ctx.fail("server:callback", c.where(), "the callback is %s" % show(c.arg(2))[:100])
            return [(1, res_ok())]
        return None
    proto.run(ctx, TT, b, "server:loop", {"go": [SV + "handle_request_through_worker"]}, step, 0, need=("go",), rets=0)


def callback(ctx, TT, c, clo, reqs):
    F = ctx.F
    b = F.bodies.get(clo.x[0])
    fr = TT.frame(b, c.fr, None, tuple((clo.x[1], o) for o in clo.x[2]), ("cb",))
    want = show(TT.norm(reqs))

    def step(ps, l, c2):
        sent, dec, ntf = ps
        if l == "send":
            for a in proto.has_agg(TT, c2.arg(1), wire.NET + "Payload", 0):
                d = dict(a.d[2])
                for f in ("id", "session_id"):
                    s = show(origin(TT, d[f]))
                    ctx.ob("server:response-%s" % f, s == want + "." + f, c2.where(), "the response's %s is %s, not the request's" % (f, s[-160:]))
                for f, i in (("name", 2), ("value", 3)):
                    t = origin(TT, d[f])
                    ctx.ob("server:response-%s" % f, any(x.k == "par" and x.d[0] == b.h and x.d[1] == i for x in TT.walk(t, 0)), c2.where(), "the response's %s is %s" % (f, show(t)[-120:]))
            ctx.ob("server:once", sent == 0, c2.where(), "more than one response is sent for a request")
            return [((sent + 1, dec, ntf), {})]
        if l == "dec":
            return [((sent, dec + 1, ntf), {})]
        if l == "notify":
            ctx.ob("server:slot-order", dec == 1, c2.where(), "wakes the connection before the slot is free")
            return [((sent, dec, True), {})]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("server:answered", ps[0] == 1, ctx.where(b), "a request can end without a response")
        ctx.ob("server:slot", ps[1] == 1 and ps[2], ctx.where(b), "a request can end without giving back its slot: the connection stops after a while")
    proto.run(ctx, TT, b, "server:callback", {"send": FS, "dec": ["fetch_sub"], "notify": ["notify_one", "notify_waiters", "notify"]}, step, (0, 0, False),
              need=("send", "dec", "notify"), ret=ret, frame=fr)


def server_worker(ctx, TT):
    """The worker task: every request taken from the queue is answered before the next."""
    F = ctx.F
    root = ctx.need(SV + "open")
    co = None
    if root is not None:
        st = [root]
        while st:
            x = st.pop()
            for ch in F.children.get(x.h, ()):
                st.append(ch)
                if ch.kind == "coroutine" and any("dispatch_api_request" in p for p in calls(F, ch)):
                    co = ch
    if co is None:
        ctx.fail("anchor:request worker", "", "the task that runs requests was not found")
        return

    def step(ps, l, c):
        if l == "recv":
            ctx.ob("worker:answered", ps in ("idle", "sent"), c.where(), "the next request is taken before the last one was answered")
            return [("got", res_ok()), ("idle", res_err())]
        if l == "assume":
            t = show(origin(TT, c.arg(1)))
            ctx.ob("worker:session", t.endswith(".session"), c.where(), "the request runs with %s, not with its own session" % t[-100:])
            return [(ps, res_ok()), (ps, res_err())]
        if l == "dispatch":
            n = show(origin(TT, c.arg(1)))
            ctx.ob("worker:name", n.endswith(".name"), c.where(), "dispatches %s" % n[-80:])
            v = show(origin(TT, c.arg(2)))
            ctx.ob("worker:value", ".value" in v, c.where(), "the handler gets %s" % v[-80:])
            hs = TT.norm(c.arg(0))
            for x in proto.has_agg(TT, hs, "bonsaidb_server::api::HandlerSession", 0):
                d = dict(x.d[2])
                ac = d.get("as_client")
                ok = ac is not None and any(y.k == "call" and short(y.d[0]) == "assume_session" for y in TT.walk(ac, 0))
                ctx.ob("worker:as-client", ok, c.where(), "the handle given to the handler is %s, not one limited to the request's session" % show(ac)[:120])
                ctx.ob("worker:client", show(TT.norm(d["client"])).endswith(".client"), c.where(), "the connection given to the handler is %s" % show(d["client"])[:80])
            ctx.ob("worker:one-dispatch", ps == "got", c.where(), "a request is executed twice")
            return [("run", res_ok()), ("run", res_err())]
        if l == "send":
            ctx.ob("worker:once", ps in ("got", "run"), c.where(), "answers twice")
            t = TT.norm(c.arg(1))
            names = {show(origin(TT, a.d[2][0][1])) for a in alts(t) if a.k == "agg" and a.d[2]}
            ctx.ob("worker:answer-name", bool(names) and all(n.endswith(".name") for n in names), c.where(), "the answer is named %s" % sorted(names))
            return [("sent", {})]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("worker:ends", ps in ("idle", "sent"), ctx.where(co), "the worker can end with a request unanswered")
    proto.run(ctx, TT, co, "worker", {"recv": ["recv_async"], "assume": ["assume_session"], "dispatch": ["dispatch_api_request"],
                                      "send": ["tokio::sync::oneshot::Sender::<T>::send"] + FS}, step, "idle",
              need=("recv", "assume", "dispatch", "send"), ret=ret, rets=0)


def calls(F, b):
    from facts import Fn
    for bl in b.blocks:
        if bl is not None and bl[1][0] == "call" and bl[1][1][0] == "k" and isinstance(bl[1][1][1], Fn):
            yield bl[1][1][1].rpath


def server_queue(ctx, TT):
    """handle_request_through_worker: the session is the one the request names on this connection, or the default."""
    b = ctx.need(SV + "handle_request_through_worker")
    if b is None:
        return

    def step(ps, l, c):
        if l == "send":
            found = False
            for a in proto.has_agg(TT, c.arg(1), "bonsaidb_server::server::ClientRequest", 1):
                found = True
                d = dict(a.d[2])
                s = d["session"]
                got = [x for x in TT.walk(s, 1) if x.k == "call" and short(x.d[0]) == "session"]
                ok = bool(got) and all(wire.is_field(TT, x.d[1][1], b, 2, "session_id") and wire.is_field(TT, x.d[1][0], b, 4, "") for x in got)
                ctx.ob("queue:session", ok, c.where(), "the request's session is %s" % show(s)[:160])
                for x in alts(TT.norm(s)):
                    for y in TT.walk(x, 1):
                        r, f = fwd.unwrap(y)
                        if fwd.is_par(r, b, 1) and "session" in (f[-1] if f else "") and f[-1] != "default_session":
                            ctx.fail("queue:session", c.where(), "an unknown session becomes %s" % show(y))
                req = d["request"]
                ctx.ob("queue:request", all(wire.is_field(TT, y, b, 2, "") for x in alts(TT.norm(req)) for y in [x.d[2][0][1] if x.k == "agg" and x.d[1] == "Some" else x]), c.where(), "queues %s" % show(req)[:100])
                ctx.ob("queue:client", wire.is_field(TT, d["client"], b, 4, ""), c.where(), "queued for connection %s" % show(d["client"])[:80])
            if not found:
                return None
            return [(1, res_ok()), (2, res_err())]
        return None

    def ret(ps, val, st, ex):
        v = val.get(())
        ctx.ob("queue:sent", not (ps == 0 and v == 0), ctx.where(b), "reports success without queueing the request")
    proto.run(ctx, TT, b, "queue", {"send": FS}, step, 0, need=("send",), ret=ret)


def api_name(ctx, TT):
    """The server looks up the handler by the name it was given."""
    b = ctx.need("bonsaidb_server::dispatch::ServerDispatcher::dispatch_api_request")
    if b is None:
        return

    def target(c):
        return short(c.path) == "handle"

    def args(c):
        out = [(wire.is_field(TT, c.arg(1), b, 1, ""), "the handler gets session %s" % show(c.arg(1))[:80]),
               (wire.is_field(TT, origin(TT, c.arg(2)), b, 3, ""), "the handler gets %s" % show(c.arg(2))[:80])]
        d = c.arg(0)
        got = [x for x in TT.walk(d, 1) if x.k == "call" and short(x.d[0]) == "custom_api_dispatcher"]
        out.append((bool(got) and all(wire.is_field(TT, x.d[1][1], b, 2, "") for x in got), "the handler is %s" % show(d)[:100]))
        return out
    fwd.forward(ctx, TT, b, "dispatch", {"handle"}, target, args, True)


def unique(ctx, TT):
    """Each request that waits for an answer is given an id no other one has: the value of a counter that is shared by all handles and only counts up."""
    n = 0
    for b in sorted(ctx.F.bodies.values(), key=lambda x: x.path):
        if not b.path.startswith("bonsaidb_client::") and not b.path.startswith("<bonsaidb_client::"):
            continue
        for i, bl in enumerate(b.blocks):
            for place, rv, line in (bl[0] if bl else ()):
                if rv[0] != "agg" or rv[2] != "bonsaidb_client::client::PendingRequest":
                    continue
                w = "%s:%s" % (b.file, line)
                for a in alts(TT.norm(TT.op(TT.frame(b), rv[6][rv[5].index("request")]))):
                    v = dict(a.d[2]).get("id") if a.k == "agg" else None
                    n += 1
                    ids = given(ctx, TT, v, 0) if v is not None else []
                    ctx.ob("unique:counter", bool(ids) and all(x.k == "call" and short(x.d[0]) == "fetch_add" and "request_id" in show(TT.norm(x.d[1][0])) and
                           show(TT.norm(x.d[1][1])) not in ("0",) for x in ids), w,
                           "a request's id is %s, not the next value of the counter: requests that are waiting can have the same id" % ", ".join(show(x)[:70] for x in ids))
    ctx.floor("requests", n, 1)
    for b in ctx.F.bodies.values():
        if "bonsaidb_client::" not in b.path:
            continue
        for bl in b.blocks:
            t = bl[1] if bl else None
            if t and t[0] == "call" and t[1][0] == "k" and short(getattr(t[1][1], "path", "")) in ("store", "swap", "fetch_sub", "fetch_and", "fetch_min", "compare_exchange", "fetch_update") \
                    and t[2] and "request_id" in show(TT.norm(TT.op(TT.frame(b), t[2][0]))):
                ctx.fail("unique:reset", ctx.where(b), "the counter requests' ids come from is set by %s" % short(t[1][1].path))


def given(ctx, TT, t, depth):
    """what an id is, seen through the functions it is handed to"""
    r = []
    for x in alts(TT.norm(t)):
        if x.k == "agg" and x.d[1] == "Some":
            r += given(ctx, TT, x.d[2][0][1], depth)
        elif x.k == "par" and depth < 4 and x.d[0] in ctx.F.bodies:
            at = proto.callers(ctx.F, ctx.F.bodies[x.d[0]])
            r += [y for cb, i, args in at if x.d[1] - 1 < len(args) for y in given(ctx, TT, TT.op(TT.frame(cb), args[x.d[1] - 1]), depth + 1)] or [x]
        else:
            r.append(x)
    return r
