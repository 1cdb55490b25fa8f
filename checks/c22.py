"""C22: published messages reach the subscribers of their database and topic, and a requester handles only its own subscribers."""
from terms import T, alts, short, show
from explore import res_ok, res_err
import c11
import c19
import fwd
import proto

EXPLAIN = ("The path of a message is followed over compiler MIR piece by piece: publishing, subscribing and unsubscribing on a local database, the making of "
           "the relay's topic and its removal on receipt, the registration of local subscribers, the server's tables of subscribers per session and "
           "the task that forwards to the client, and the client's table of subscribers. Every path of each piece is explored and what is passed on "
           "is compared, as provenance terms, with what was given.")
RULE = ("Publishing, subscribing and unsubscribing use, once per topic, the relay topic made of the handle's database name, a separator and the given topic, in this order; "
        "receipt removes up to and with the first separator, on local receivers and only there. A local subscriber gets an id no other has, is kept under it, and dropping it forgets "
        "exactly that id. The server adds, looks up and removes subscribers by id only among those of the session the request came under, reports unknown ones, and "
        "forwards each message of a subscriber under that subscriber's id with its topic and payload until receiving or sending fails. The client hands a "
        "message to the sender registered for its subscriber id, registers the id the server gave, and forgets exactly an unregistered id.")
ASSUME = ["circulate delivers a message published to a topic to exactly the current subscribers of that topic, in order.",
          "C20 (database names contain no NUL).", "C01, C03, C04, C06 (permissions, requests and wrappers)."]
PS = "bonsaidb_core::pubsub::"
DB = "bonsaidb_local::database::Database"
SUB = "bonsaidb_local::database::pubsub::Subscriber"
CC = "bonsaidb_server::server::connected_client::ConnectedClient::<B>::"
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
DT = PS + "database_topic"
VEC = "alloc::vec::Vec::<T, A>::"
CONV = ("clone", "into", "from", "to_vec", "into_vec", "to_owned", "as_ref", "as_slice", "deref", "borrow", "index", "as_str", "as_bytes", "bytes", "iter", "into_iter", "copied", "cloned", "to_string")


def strip(TT, t):
    t = TT.norm(t)
    while t.k == "call" and short(t.d[0]) in CONV and t.d[1]:
        t = TT.norm(t.d[1][0])
    return t


def par(TT, b, t, i, f=None):
    """parameter i (or a field of it) itself, converted at most"""
    out = []
    for a in alts(TT.norm(t)):
        a = strip(TT, a)
        r, g = fwd.unwrap(a)
        while r.k == "call" and short(r.d[0]) in CONV and r.d[1]:
            r, g2 = fwd.unwrap(strip(TT, r))
            g = g2 + g
        g = tuple(x for x in g if x not in ("*",))
        out.append(r.k == "par" and r.d[0] == b.h and r.d[1] == i and (g == (f or ()) or f is None and g in (("0",), ())))
    return bool(out) and all(out)


def check(ctx):
    TT = ctx.terms(opaque={DT, DB + "::name", PS + "Receiver::new", PS + "Receiver::new_stripping_prefixes", PS + "Receiver::remove_database_prefix"})
    topics(ctx, TT)
    topic(ctx)
    receipt(ctx)
    registering(ctx, TT)
    session_tables(ctx, TT)
    forwarding(ctx, TT)
    client(ctx, TT)


# ---- local ----------------------------------------------------------------------------------------------
def own_name(TT, b, t):
    """the name of the database of the handle the operation was called on"""
    out = []
    for a in alts(TT.norm(t)):
        a = strip(TT, a)
        if a.k == "call" and short(a.d[0]) == "name" and a.d[1]:
            a = TT.norm(a.d[1][0])
        r, f = fwd.unwrap(a)
        out.append(r.k == "par" and r.d[0] == b.h and r.d[1] == 1 and set(f) <= {"*", "data", "name", "database"})
    return bool(out) and all(out)


def topics(ctx, TT):
    n = 0
    for b, name, ev in ((ctx.method(DB, PS + "PubSub", "publish_bytes"), "publish", "circulate::Relay::publish_raw"),
                        (ctx.method(DB, PS + "PubSub", "publish_bytes_to_all"), "publish-all", "circulate::Relay::publish_raw_to_all"),
                        (ctx.method(SUB, PS + "Subscriber", "subscribe_to_bytes"), "subscribe", "circulate::Subscriber::subscribe_to_raw"),
                        (ctx.method(SUB, PS + "Subscriber", "unsubscribe_from_bytes"), "unsubscribe", "circulate::Subscriber::unsubscribe_from_raw")):
        if b is None:
            continue
        n += 1

        def step(ps, l, c, b=b, name=name):
            w = c.where()
            if l == "topic":
                ctx.ob(name + ":database", own_name(TT, b, c.arg(0)), w, "the database of the topic is %s" % show(c.arg(0))[:60])
                if name == "publish-all":
                    t = TT.norm(c.arg(1))
                    ok = any(x.k == "par" and x.d[0] == b.h and x.d[1] == 2 for x in TT.walk(t, 0)) or t.k in ("par", "elem")
                    ctx.ob(name + ":topic", ok, w, "the topic is %s" % show(t)[:60])
                    return [(ps.set(made=True), {})]
                ctx.ob(name + ":topic", par(TT, b, c.arg(1), 2), w, "the topic is %s" % show(c.arg(1))[:60])
                return [(ps.set(made=True), {})]
            if l == "many":
                return [(ps, res_ok()), (ps.set(bad=True), res_err())]
            ctx.ob(name + ":once", not ps.done, w, "it is done twice")
            t = TT.norm(c.arg(1))
            if name == "publish-all" and c.arg(1).k == "call" and TT.gathered(c.arg(1)) is not None:
                ctx.ob(name + ":all", not TT.selective(c.arg(1)), w, "not every topic is published to")
                t = TT.norm(TT.elem(c.arg(1)))
                ctx.ob(name + ":each-topic", all(a.k == "call" and len(c19.calls(TT, a, "database_topic")) == 1 for a in alts(t)), w, "a topic published to is %s" % show(t)[:60])
            ctx.ob(name + ":as-topic", bool(c19.calls(TT, t, "database_topic")) or ps.made is True and name == "publish-all" or name == "publish-all" and any(x.k == "clo" for x in TT.walk(t, 0)), w, "the relay is given %s" % show(t)[:60])
            if name == "publish-all":
                sel = [short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) in ("filter", "filter_map", "skip", "take", "step_by", "take_while", "skip_while", "flatten", "dedup")]
                ctx.ob(name + ":all", not sel, w, "not every topic is published to: %s" % sel)
                ctx.ob(name + ":topics", any(x.k == "par" and x.d[0] == b.h and x.d[1] == 2 for x in TT.walk(t, 0)), w, "the topics are %s" % show(t)[:60])
                for x in TT.walk(t, 0):         # what becomes of each topic
                    if x.k == "clo" and b.h in (ctx.F.bodies[x.x[0]].parent, x.x[1].body.h):
                        made(ctx, TT, b, x, name)
            if name.startswith("publish"):
                ctx.ob(name + ":payload", par(TT, b, c.arg(2), 3), w, "the payload is %s" % show(c.arg(2))[:60])
            if "Relay" in c.path:
                ctx.ob(name + ":relay", any(x.k == "fld" and x.d[1] == "relay" for x in TT.walk(TT.norm(c.arg(0)), 2)), w, "it is published to %s" % show(c.arg(0))[:60])
            else:
                ctx.ob(name + ":subscriber", par(TT, b, c.arg(0), 1, ("subscriber",)), w, "it is done for %s" % show(c.arg(0))[:60])
            return [(ps.set(done=True), {})]

        def ret(ps, val, st, ex, b=b, name=name):
            if val.get(()) == 0:
                ctx.ob(name + ":done", ps.done is True, ctx.where(b), "success is reported without anything having been done")
        proto.run(ctx, TT, b, name, {"relay": [ev], "topic": [DT]}, step, c11.rec(("made", "done", "bad")), need=("relay",), ret=ret)
    ctx.floor("topics", n, 4)


def made(ctx, TT, b, clo, name):
    cb = ctx.F.bodies[clo.x[0]]
    fr = TT.frame(cb, clo.x[1], None, tuple((clo.x[1], o) for o in clo.x[2]), ("each-topic",))

    def step(ps, l, c):
        if l == "perm":
            return [(ps, res_ok()), (ps, res_err())]
        w = c.where()
        ctx.ob(name + ":database", own_name(TT, b, c.arg(0)), w, "the database of a topic is %s" % show(c.arg(0))[:60])
        r, f = fwd.unwrap(strip(TT, c.arg(1)))
        ctx.ob(name + ":topic", r.k == "par" and r.d[0] == cb.h and not [x for x in f if x != "*"], w, "a topic published to is %s" % show(c.arg(1))[:60])
        return [(True, {})]

    def ret(ps, val, st, ex):
        if val.get(()) != 1:
            ctx.ob(name + ":each-topic", ps is True, ctx.where(cb), "a message is published to something other than the topic given")
    proto.run(ctx, TT, cb, name + ":each", {"topic": [DT], "perm": ["check_permission"]}, step, 0, frame=fr, ret=ret, need=("topic",))


def topic(ctx):
    """the relay's topic: the name, the separator, the topic"""
    b = ctx.need(DT)
    if b is None:
        return
    TT = ctx.terms()

    def kind(t):
        t = TT.norm(t)
        if t.k == "con" and t.d[0] == 0 or show(t) in ("0", '"\x00"', '"\\x00"'):
            return "sep"
        if par(TT, b, t, 1):
            return "name"
        if par(TT, b, t, 2):
            return "topic"
        return "?"

    def step(ps, l, c):
        if l == "join":
            a = [x for x in TT.walk(TT.norm(c.arg(0)), 0) if x.k == "agg" and str(x.d[1] or x.d[0]).startswith("array")]
            return [(ps + tuple(kind(v) for _, v in (a[0].d[2] if a else ())), {})]
        return [(ps + (kind(c.arg(1)),), {})]

    def ret(ps, val, st, ex):
        ctx.ob("topic:made", ps == ("name", "sep", "topic"), ctx.where(b), "the relay's topic is made of %s" % ", ".join(ps))
    proto.run(ctx, TT, b, "topic", {"add": [VEC + "push", VEC + "extend_from_slice", VEC + "append", "extend"], "join": ["concat", "join"]}, step, (), ret=ret)


def receipt(ctx):
    TT = ctx.terms()
    b = ctx.need(PS + "Receiver::remove_database_prefix")
    if b is None:
        return

    def step(ps, l, c):
        w = c.where()
        if l == "find":
            k = TT.norm(c.arg(1))
            ok = k.k == "clo"
            if ok:
                cb = ctx.F.bodies[k.x[0]]
                t = TT.norm(TT.local(c19.frame_of(TT, cb, k), 0, ()))
                ok = show(t).replace("*", "").startswith(("Eq(", "eq(")) and "0" in show(t)
            ctx.ob("receipt:separator", ok, w, "the separator looked for is not the one used")
            return [(ps, {(): 1}), (ps.set(none=True), {(): 0})]
        t = TT.norm(c.arg(1))
        ok = t.k == "bin" and "Add" in t.d[0] and any(x.k == "call" and short(x.d[0]) == "position" for x in TT.walk(t, 0)) and show(t).endswith(", 1)")
        ctx.ob("receipt:removed", ok, w, "%s bytes are removed from the topic" % show(t)[:60])
        ctx.ob("receipt:only-prefixed", ps.strip is True, w, "something is removed from the topic of a message that has no prefix")
        return [(ps.set(cut=True), res_ok())]

    def branch(ps, st, o, src, val, ex):
        if o[0] in ("c", "m") and val is not None and "strip" in show(TT.norm(ex.term(st, o))):
            return ps.set(strip=bool(val))
        return ps

    def ret(ps, val, st, ex):
        ctx.ob("receipt:prefix", bool(ps.cut) or ps.none or ps.strip is False, ctx.where(b), "the prefix stays on the topic")
    proto.run(ctx, TT, b, "receipt", {"find": ["position"], "cut": ["read_bytes", "advance", "split_off", "drain"]}, step, c11.rec(("strip", "cut", "none")), branch=branch, ret=ret, need=("find", "cut"))
    n = 0
    for m in ("receive", "receive_async", "try_receive"):
        b = ctx.need(PS + "Receiver::" + m)
        if b is None:
            continue
        n += 1

        def step(ps, l, c):
            if l == "recv":
                return [("got", res_ok()), ("none", res_err())]
            ctx.ob("receipt:own", bool([x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "call" and "recv" in short(x.d[0])]), c.where(), "the message passed on is %s" % show(c.arg(1))[:60])
            return [("cut", {})]

        def ret(ps, val, st, ex, b=b, m=m):
            v = val.get(())
            ctx.ob("receipt:%s" % m, ps == "cut" if v == 0 else v is None or ps == "none", ctx.where(b), "a message is received without its prefix having been removed" if v == 0 else "a message is lost")
        proto.run(ctx, TT, b, "receipt:" + m, {"recv": ["recv", "recv_async", "try_recv", "recv_timeout", "recv_deadline"], "cut": [PS + "Receiver::remove_database_prefix"]}, step, 0, ret=ret, need=("recv", "cut"), stop=lambda x: short(x.path) == "remove_database_prefix")
    ctx.floor("receipts", n, 3)
    for m, v in (("new", 0), ("new_stripping_prefixes", 1)):
        b = ctx.need(PS + "Receiver::" + m)
        t = TT.norm(TT.local(TT.frame(b), 0, ())) if b is not None else None
        if t is not None:
            f = dict(t.d[2]) if t.k == "agg" else {}
            ctx.ob("receipt:%s" % m, show(f.get("strip_database", t)) == str(v) and par(TT, b, f.get("receiver", t), 1), ctx.where(b), "%s makes %s" % (m, show(t)[:60]))


# ---- local registration -----------------------------------------------------------------------------------
def registering(ctx, TT):
    b = ctx.need("bonsaidb_local::storage::pubsub::<impl bonsaidb_local::storage::StorageInstance>::register_subscriber")
    if b is not None:
        made_, kept, ids = [], [], set()

        stored = [1 for bl in b.blocks for p, rv, _ in (bl[0] if bl else ()) if len(p) > 1 and p[-1][0] == "f" and p[-1][2] == "last_id"]

        def idof(t):
            t = strip(TT, t)
            if stored and t.k == "call" and short(t.d[0]) in ("wrapping_add", "checked_add", "saturating_add", "add") and t.d[1][1] == T("con", (1,)) or stored and t.k == "bin" and t.d[0].startswith("Add"):
                t = t.d[1][0]
            f = [x for x in fwd.unwrap(strip(TT, t))[1] if x != "*"]
            return f[-1:] == ["last_id"]

        def step(ps, l, c):
            w = c.where()
            if l == "make":
                return [(ps.set(sub=True), {})]
            if l == "next":
                return [(ps.set(vac=None), {})]
            if l == "entry":
                ctx.ob("register:id", idof(c.arg(1)), w, "the new subscriber's id is %s" % show(c.arg(1))[:60])
                return [(ps.set(vac=True), {(): 1}), (ps.set(vac=False), {(): 0})]
            if l == "has":
                ctx.ob("register:id", idof(c.arg(1)), w, "the new subscriber's id is %s" % show(c.arg(1))[:60])
                return [(ps.set(vac=False), {(): 1}), (ps.set(vac=True), {(): 0})]
            if l == "keep":
                x = [y for i in range(len(c.args)) for y in TT.walk(TT.norm(c.arg(i)), 0) if y.k == "agg" and y.d[0].endswith("SessionSubscriber")]
                if not x:
                    return None
                f = dict(x[0].d[2])
                ctx.ob("register:session", par(TT, b, f["session_id"], 2), w, "the subscriber is kept for the session %s" % show(f["session_id"])[:60])
                ctx.ob("register:kept", bool(c19.calls(TT, f["subscriber"], "create_subscriber")), w, "what is kept is %s" % show(f["subscriber"])[:60])
                ctx.ob("register:fresh", ps.vac is True, w, "a subscriber replaces another of the same id")
                return [(ps.set(kept=True), {})]
            if l == "receiver":
                ctx.ob("register:receiver", bool(c19.calls(TT, c.arg(0), "create_subscriber")) and short(c.path) == "new_stripping_prefixes", w, "the receiver is %s of %s" % (short(c.path), show(c.arg(0))[:50]))
                return [(ps, {})]
            return None

        def branch(ps, st, o, src, val, ex):
            return ps

        def ret(ps, val, st, ex):
            ctx.ob("register:done", ps.kept is True, ctx.where(b), "a subscriber is made that is not kept")
        proto.run(ctx, TT, b, "register", {"make": ["circulate::Relay::create_subscriber"], "entry": [HM + "entry"], "has": [HM + "contains_key"], "keep": ["or_insert", HM + "insert", "std::collections::hash::map::VacantEntry::<'a, K, V, A>::insert"],
                                           "receiver": [PS + "Receiver::new", PS + "Receiver::new_stripping_prefixes"]}, step, c11.rec(("sub", "vac", "kept")), need=("make", "keep", "receiver"), ret=ret)
        t = [a for a in alts(TT.norm(TT.local(TT.frame(b), 0, ()))) if a.k == "agg"]
        for a in t:
            f = dict(a.d[2])
            ctx.ob("register:returned-id", idof(f["id"]), ctx.where(b), "the subscriber's id is %s" % show(f["id"])[:60])
            ctx.ob("register:returned", bool(c19.calls(TT, f["subscriber"], "create_subscriber")) and bool(c19.calls(TT, f["receiver"], "create_subscriber")) and par(TT, b, f["database"], 3), ctx.where(b), "the subscriber returned is %s" % show(a)[:80])
        ctx.floor("register:returned", len(t), 1)
        # the id counter moves on before it is used
        adds = [x for bl in b.blocks if bl and bl[1][0] == "call" and bl[1][1][0] == "k" and "wrapping_add" in bl[1][1][1].path or bl for x in (bl,) if bl and bl[1][0] == "call" and bl[1][1][0] == "k" and short(bl[1][1][1].path) in ("wrapping_add", "checked_add")]
    cs = [b2 for b2 in ctx.F.bodies.values() if b2.path.startswith(("bonsaidb_local::", "<bonsaidb_local::")) for bl in b2.blocks if bl and bl[1][0] == "call" and bl[1][1][0] == "k"
          and getattr(bl[1][1][1], "path", "") in (HM + "remove", HM + "clear", HM + "retain", HM + "drain", HM + "remove_entry") and "SessionSubscriber" in "".join(a.s for a in bl[1][1][1].args[:2] if hasattr(a, "s"))]
    for b2 in cs:
        ctx.ob("forget:where", short(b2.path.split("::{closure")[0]) in ("unregister", "drop"), ctx.where(b2), "subscribers are forgotten by %s" % b2.path[-60:])
    b = ctx.need("bonsaidb_local::storage::SessionSubscribers::unregister")
    if b is not None:
        def step2(ps, l, c):
            if "SessionSubscriber" not in "".join(a.s for a in c.fn.args[:2] if hasattr(a, "s")):
                return None
            ctx.ob("forget:id", par(TT, b, c.arg(1), 2), c.where(), "the subscriber forgotten is %s" % show(c.arg(1))[:60])
            return [(True, {(): 1}), (True, {(): 0})]
        proto.run(ctx, TT, b, "forget", {"rm": [HM + "remove", HM + "remove_entry"]}, step2, 0, need=("rm",), ret=lambda ps, v, st, ex: ctx.ob("forget:done", ps is True, ctx.where(b), "a subscriber is not forgotten"))
    b = ctx.method(SUB, "core::ops::drop::Drop", "drop")
    if b is not None:
        def step3(ps, l, c):
            t = TT.norm(c.arg(1))
            ctx.ob("forget:own", par(TT, b, t, 1, ("id",)) or par(TT, b, t, 1), c.where(), "dropping a subscriber forgets %s" % show(t)[:60])
            return [(True, {})]
        proto.run(ctx, TT, b, "forget-dropped", {"un": ["bonsaidb_local::storage::SessionSubscribers::unregister"]}, step3, 0, need=("un",), ret=lambda ps, v, st, ex: ctx.ob("forget:dropped", ps is True, ctx.where(b), "dropping a subscriber does not forget it"))


# ---- the server's tables -----------------------------------------------------------------------------------
def session_tables(ctx, TT):
    n = 0
    for m, ses, sid, act, top in (("register_subscriber", 3, None, (HM + "insert",), None), ("subscribe_by_id", 4, 2, ("subscribe_to_bytes",), 3), ("unsubscribe_by_id", 4, 2, ("unsubscribe_from_bytes",), 3),
                                  ("unregister_subscriber_by_id", 3, 2, (HM + "remove",), None)):
        b = ctx.need(CC + m)
        if b is None:
            continue
        n += 1
        pre = "server:" + m

        def step(ps, l, c, b=b, pre=pre, ses=ses, sid=sid, top=top, m=m):
            w = c.where()
            inner = "Subscriber" in c11.targ(c, 1)
            if l == "session" or l == "act" and not inner and c.path.startswith(HM):
                if inner:
                    ctx.ob(pre + ":id", sid is not None and par(TT, b, c.arg(1), sid), w, "the subscriber looked up is %s" % show(c.arg(1))[:60])
                    ctx.ob(pre + ":among", ps.ses is True, w, "a subscriber is looked up without its session having been")
                    return [(ps.set(sub=True), {(): 1}), (ps.set(sub=False), {(): 0})]
                if "ClientSession" not in c11.targ(c, 1):
                    return None
                ctx.ob(pre + ":session", l == "session" and par(TT, b, c.arg(1), ses), w, "the session looked in is %s" % show(c.arg(1))[:60])
                return [(ps.set(ses=True), {(): 1}), (ps.set(ses=False), {(): 0})]
            if l == "all":
                ctx.ob(pre + ":every", False, w, "all sessions are gone through")
                return None
            if l == "spawn":
                ctx.ob(pre + ":forward", ps.done is True, w, "messages are forwarded for a subscriber that is not kept")
                return [(ps.set(fwd=True), {})]
            if l == "forward":
                ctx.ob(pre + ":forward-session", par(TT, b, c.arg(1), 3), w, "messages are forwarded for the session %s" % show(c.arg(1))[:60])
                ctx.ob(pre + ":forward-id", subid(TT, b, c.arg(2)), w, "messages are forwarded for the subscriber %s" % show(c.arg(2))[:60])
                ctx.ob(pre + ":forward-from", any(x.k == "par" and x.d[1] == 2 for x in TT.walk(TT.norm(c.arg(3)), 0)), w, "messages are forwarded from %s" % show(c.arg(3))[:60])
                return [(ps, {})]
            ctx.ob(pre + ":allowed", ps.ses is True, w, "it is done without the session having been found")
            if m == "register_subscriber":
                ctx.ob(pre + ":kept-as", subid(TT, b, c.arg(1)) and par(TT, b, c.arg(2), 2), w, "the subscriber %s is kept as %s" % (show(c.arg(2))[:40], show(c.arg(1))[:40]))
                return [(ps.set(done=True), {(): 1}), (ps.set(done=True), {(): 0})]
            if m == "unregister_subscriber_by_id":
                ctx.ob(pre + ":id", par(TT, b, c.arg(1), sid), w, "the subscriber removed is %s" % show(c.arg(1))[:60])
                return [(ps.set(done=True, sub=True), {(): 1}), (ps.set(sub=False), {(): 0})]
            t = TT.norm(c.arg(0))
            ctx.ob(pre + ":that", bool([x for x in TT.walk(t, 0) if x.k == "fld" and x.d[1] == "subscribers"]), w, "it is done for %s" % show(t)[:60])
            ctx.ob(pre + ":topic", par(TT, b, c.arg(1), top), w, "the topic is %s" % show(c.arg(1))[:60])
            ctx.ob(pre + ":known", ps.sub is True, w, "it is done without the subscriber having been found")
            return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

        def ret(ps, val, st, ex, b=b, pre=pre, m=m):
            if m == "register_subscriber":
                ctx.ob(pre + ":done", ps.ses is False or ps.done and ps.fwd, ctx.where(b), "a subscriber of a known session is not kept, or its messages are not forwarded")
            elif val.get(()) == 0:
                ctx.ob(pre + ":done", ps.done is True and not ps.bad, ctx.where(b), "success is reported for an unknown subscriber or a failure")
        ev = {"session": [HM + "get_mut", HM + "get", HM + "contains_key"], "act": list(act), "all": [HM + "values", HM + "values_mut", HM + "iter", HM + "iter_mut"]}
        if m == "register_subscriber":
            ev["spawn"] = ["tokio::task::spawn::spawn"]
        proto.run(ctx, TT, b, pre, ev, step, c11.rec(("ses", "sub", "done", "bad", "fwd")), need=("session", "act"), ret=ret)
    # the forwarding is started with the subscriber's own id, session and receiver
    b = ctx.need(CC + "register_subscriber")
    if b is not None:
        k = 0
        for cb in ctx.F.children.get(b.h, []):
            for t in spawned(ctx, TT, b, cb):
                k += 1
                ctx.ob("server:register_subscriber:forwards", t[0], t[1], "messages are forwarded for %s" % t[2])
        ctx.floor("server:forwards", k, 1)
    ctx.floor("server-tables", n, 4)
    for m, arg in (("log_out", 2), ):
        b = ctx.need(CC + m)
        if b is not None:
            def step4(ps, l, c, b=b):
                ctx.ob("server:log-out", par(TT, b, c.arg(1), 2) or any(par(TT, b, x, 2) for x in TT.walk(TT.norm(c.arg(1)), 0)), c.where(), "the session removed is %s" % show(c.arg(1))[:60])
                return [(True, {(): 1}), (True, {(): 0})]
            proto.run(ctx, TT, b, "server:log_out", {"rm": [HM + "remove"]}, step4, 0, need=("rm",), ret=lambda ps, v, st, ex: ctx.ob("server:log-out-done", ps is True, "", "logging out keeps the session's subscribers"))


def subid(TT, b, t):
    out = []
    for a in alts(TT.norm(t)):
        a = strip(TT, a)
        if a.k == "call" and short(a.d[0]) == "id" and a.d[1]:
            out.append(par(TT, b, a.d[1][0], 2))
        else:
            out.append(par(TT, b, a, 2, ("id",)))
    return bool(out) and all(out)


def spawned(ctx, TT, b, cb):
    """the call that starts the forwarding, with the captured values seen from where they are captured"""
    out = []
    fr0 = TT.frame(b)
    for bi, bl in enumerate(b.blocks):
        if not bl:
            continue
        for p, rv, ln in bl[0]:
            if rv[0] == "agg" and rv[1] in ("closure", "coroutine") and cb.h in (rv[2], rv[3] if len(rv) > 3 else None):
                fr = TT.frame(cb, fr0, None, tuple((fr0, o) for o in rv[6]), ("spawned",))
                for bl2 in cb.blocks:
                    if bl2 and bl2[1][0] == "call" and bl2[1][1][0] == "k" and bl2[1][1][1].path == CC + "forward_notifications_for":
                        a = [TT.op(fr, x) for x in bl2[1][2]]
                        ok = par(TT, b, a[1], 3) and subid(TT, b, a[2]) and any(x.k == "par" and x.d[0] == b.h and x.d[1] == 2 for x in TT.walk(TT.norm(a[3]), 0))
                        out.append((ok, "%s:%d" % (cb.file, bl2[1][5]), ", ".join(show(x)[:40] for x in a[1:])))
    return out


def forwarding(ctx, TT):
    b = ctx.need(CC + "forward_notifications_for")
    if b is None:
        return

    def from_message(t, f):
        fs = {x.d[1] for x in TT.walk(TT.norm(t), 1) if x.k == "fld"}
        return f in fs and bool([x for x in TT.walk(TT.norm(t), 1) if x.k == "call" and short(x.d[0]) in ("receive_async", "recv_async", "receive", "recv")])

    def step(ps, l, c):
        w = c.where()
        if l == "recv":
            ctx.ob("forward:from", par(TT, b, c.arg(0), 4), w, "messages are received from %s" % show(c.arg(0))[:60])
            ctx.ob("forward:each", not ps.got, w, "a message is received and not forwarded")
            return [(ps.set(got=True), res_ok()), (ps.set(end=True), res_err())]
        if l == "send":
            m = [x for x in TT.walk(TT.norm(c.arg(2)), 0) if x.k == "agg" and x.d[0].endswith("MessageReceived")]
            ctx.ob("forward:message", len(m) == 1, w, "what is sent is %s" % show(c.arg(2))[:60])
            for x in m:
                f = dict(x.d[2])
                ctx.ob("forward:id", par(TT, b, f["subscriber_id"], 3), w, "a message is sent for the subscriber %s" % show(f["subscriber_id"])[:60])
                ctx.ob("forward:topic", from_message(f["topic"], "topic"), w, "its topic is %s" % show(f["topic"])[:60])
                ctx.ob("forward:payload", from_message(f["payload"], "payload"), w, "its payload is %s" % show(f["payload"])[:60])
            ctx.ob("forward:once", ps.got is True, w, "a message is forwarded twice")
            return [(ps.set(got=False), res_ok()), (ps.set(got=False, end=True), res_err())]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("forward:until", ps.end is True, ctx.where(b), "forwarding ends although the subscriber and the connection are still there")
    proto.run(ctx, TT, b, "forward", {"recv": ["receive_async", "receive", "try_receive"], "send": [CC + "send"]}, step, c11.rec(("got", "end")), need=("recv", "send"), ret=ret,
              stop=lambda x: short(x.path) in ("receive_async", "receive", "send", "session"))


# ---- the client ----------------------------------------------------------------------------------------------
def client(ctx, TT):
    MR = "bonsaidb_core::networking::MessageReceived"
    n = 0
    for b in list(ctx.F.bodies.values()):
        if b.crate != "bonsaidb_client" or b.kind != "closure" or not any(b.locals[i].adt == MR for i in range(1, b.argc + 1)):
            continue
        if not any("pubsub" in l.s or "circulate" in l.s for c in [b] + ctx.F.children.get(b.h, []) for l in c.locals):
            continue
        n += 1

        def fields(t):
            return {x.d[1] for x in TT.walk(TT.norm(t), 0) if x.k == "fld" and x.d[1] in ("subscriber_id", "topic", "payload")}

        def step(ps, l, c, b=b):
            w = c.where()
            if l in ("get", "rm"):
                if "circulate" not in c11.targ(c, 1):
                    return None
                ctx.ob("client:which", fields(c.arg(1)) == {"subscriber_id"}, w, "a message is for the subscriber %s" % show(c.arg(1))[:60])
                if l == "get":
                    return [(ps.set(found=True), {(): 1}), (ps.set(found=False), {(): 0})]
                ctx.ob("client:gone", ps.failed is True or ps.found is None, w, "a subscriber is forgotten when a message arrives for it")
                return [(ps, {(): 1}), (ps, {(): 0})]
            m = [x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "agg" and x.d[0].endswith("circulate::Message")]
            if not m:
                return None
            f = dict(m[0].d[2])
            ctx.ob("client:message", fields(f["topic"]) == {"topic"} and fields(f["payload"]) == {"payload"}, w, "the message handed on is %s" % show(m[0])[:80])
            ctx.ob("client:found", ps.found is True, w, "a message is handed on without its subscriber having been found")
            return [(ps.set(sent=True), res_ok()), (ps.set(sent=True, failed=True), res_err())]

        def ret(ps, val, st, ex, b=b):
            ctx.ob("client:delivered", ps.sent or not ps.found, ctx.where(b), "a message is not handed to its subscriber")
        proto.run(ctx, TT, b, "client", {"get": [HM + "get", HM + "get_mut"], "rm": [HM + "remove"], "send": ["flume::Sender::<T>::send", "flume::Sender::<T>::try_send"]}, step, c11.rec(("found", "sent", "failed")), need=("get", "send"), ret=ret)
    ctx.floor("client-callbacks", n, 1)
    A = "bonsaidb_client::client::AsyncClient::"
    for m, ev in (("register_subscriber", "insert"), ("unregister_subscriber", "remove"), ("unregister_subscriber_async", "remove")):
        b = ctx.need(A + m)
        if b is None:
            continue
        i = 2 if ev == "insert" else 3

        def step2(ps, l, c, b=b, m=m, i=i, ev=ev):
            if l == "req":
                r = [x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "agg" and x.d[0].endswith("UnregisterSubscriber")]
                for x in r:
                    f = dict(x.d[2])
                    ctx.ob("client:%s:request" % m, par(TT, b, f["database"], 2) and par(TT, b, f["subscriber_id"], 3), c.where(), "the request sent is %s" % show(x)[:80])
                return [(ps.set(req=True), res_ok()), (ps.set(req=True), res_err())] if r else None
            if "circulate" not in c11.targ(c, 1):
                return None
            ctx.ob("client:%s:id" % m, par(TT, b, c.arg(1), i), c.where(), "%s uses the id %s" % (m, show(c.arg(1))[:60]))
            if ev == "insert":
                ctx.ob("client:%s:sender" % m, par(TT, b, c.arg(2), 3), c.where(), "what is registered is %s" % show(c.arg(2))[:60])
            return [(ps.set(done=True), {(): 1}), (ps.set(done=True), {(): 0})]

        def ret2(ps, val, st, ex, b=b, m=m, ev=ev):
            ctx.ob("client:%s:done" % m, ps.done is True and (ev == "insert" or ps.req is True), ctx.where(b), "%s does not take effect" % m)
        proto.run(ctx, TT, b, "client:" + m, {ev: [HM + ev], "req": ["send_api_request", "send_blocking_api_request"]}, step2, c11.rec(("done", "req")), need=(ev,), ret=ret2,
                  stop=lambda x: short(x.path) in ("send_api_request", "send_blocking_api_request"))
    k = 0
    TT = ctx.terms(opaque={b.path for b in ctx.F.bodies.values() if short(b.path) in ("send_api_request", "send_blocking_api_request")} | {PS + "Receiver::new"})
    for T, tr in (("bonsaidb_client::client::remote_database::AsyncRemoteDatabase", PS + "AsyncPubSub"), ("bonsaidb_client::client::sync::BlockingRemoteDatabase", PS + "PubSub")):
        b = ctx.method(T, tr, "create_subscriber")
        if b is None:
            continue
        k += 1
        chan = []

        def step3(ps, l, c, b=b, chan=chan):
            w = c.where()
            if l == "req":
                return [(ps.set(req=True), res_ok()), (ps, res_err())]
            i = [x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "call" and short(x.d[0]) in ("send_api_request", "send_blocking_api_request")]
            ctx.ob("client:create:id", bool(i), w, "the subscriber is registered as %s" % show(c.arg(1))[:60])
            t = TT.norm(c.arg(2))
            ctx.ob("client:create:sender", t.k == "fld" and t.d[1] == "0", w, "the sender registered is %s" % show(t)[:60])
            chan.append(t.d[0] if t.k == "fld" else None)
            return [(ps.set(reg=True), {})]

        def assign(ps, st, place, rv, line, ex, b=b, chan=chan):
            if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("AsyncRemoteSubscriber"):
                f = dict(zip(rv[5], rv[6]))
                w = "%s:%d" % (st.fr.body.file, line)
                r = TT.norm(ex.term(st, f["receiver"]))
                plain = r.k == "call" and r.d[0] == PS + "Receiver::new"
                ch = TT.norm(r.d[1][0]) if plain else None
                ctx.ob("client:create:receiver", plain and ch.k == "fld" and ch.d[1] == "1" and (not chan or ch.d[0] in chan), w, "the subscriber receives from %s" % show(r)[:60])
                i = [x for x in TT.walk(TT.norm(ex.term(st, f["id"])), 0) if x.k == "call" and short(x.d[0]) in ("send_api_request", "send_blocking_api_request")]
                ctx.ob("client:create:own-id", bool(i), w, "the subscriber's id is %s" % show(ex.term(st, f["id"]))[:60])
            return ps

        def ret3(ps, val, st, ex, b=b):
            if val.get(()) == 0:
                ctx.ob("client:create:registered", ps.reg is True and ps.req is True, ctx.where(b), "a subscriber is created that is not registered")
        proto.run(ctx, TT, b, "client:create", {"req": ["send_api_request", "send_blocking_api_request"], "reg": [A + "register_subscriber"]}, step3, c11.rec(("req", "reg")), need=("req", "reg"), ret=ret3, assign=assign,
                  stop=lambda x: short(x.path) in ("send_api_request", "send_blocking_api_request", "register_subscriber"))
    ctx.floor("client-create", k, 2)
