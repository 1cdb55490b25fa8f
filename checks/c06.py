"""C06: wrappers forward."""
from explore import Explorer
from terms import show, alts, short
import fwd
import wire

EXPLAIN = ("The handles users hold are layers around the local implementation; every method of every layer is explored path by "
           "path (through spawn_blocking closures and async bodies) and compared with the operation it stands for.")
RULE = ("Every path of a wrapper's method performs the wrapped operation of the same name exactly once, on what the wrapper "
        "wraps, with the caller's arguments in the same places; an error of that operation never becomes a success, and the "
        "value returned is made from its result.")
ASSUME = ["A runtime that refuses to run a blocking task fails the call (tokio's JoinError), which is an error, not a success."]

CORE = "bonsaidb_core::"
FAMILY = {
    "AsyncStorageConnection": "SC", "StorageConnection": "SC", "AsyncConnection": "CN", "Connection": "CN",
    "AsyncLowLevelConnection": "LL", "LowLevelConnection": "LL", "AsyncKeyValue": "KV", "KeyValue": "KV",
    "AsyncPubSub": "PS", "PubSub": "PS", "AsyncSubscriber": "SUB", "Subscriber": "SUB", "HasSession": "HS",
}
WRAPPERS = [
    ("bonsaidb_local::storage::Storage", "StorageConnection"),
    ("bonsaidb_local::r#async::AsyncStorage", "AsyncStorageConnection"),
    ("bonsaidb_local::r#async::AsyncDatabase", "AsyncConnection"),
    ("bonsaidb_local::r#async::AsyncDatabase", "AsyncLowLevelConnection"),
    ("bonsaidb_local::r#async::AsyncDatabase", "AsyncKeyValue"),
    ("bonsaidb_local::r#async::AsyncDatabase", "AsyncPubSub"),
    ("bonsaidb_local::r#async::AsyncDatabase", "HasSession"),
    ("bonsaidb_local::r#async::AsyncStorage", "HasSession"),
    ("bonsaidb_local::database::pubsub::Subscriber", "AsyncSubscriber"),
    ("bonsaidb_server::server::CustomServer<B>", "AsyncStorageConnection"),
    ("bonsaidb_server::server::CustomServer<B>", "HasSession"),
    ("bonsaidb_server::server::database::ServerDatabase<B>", "AsyncConnection"),
    ("bonsaidb_server::server::database::ServerDatabase<B>", "AsyncLowLevelConnection"),
    ("bonsaidb_server::server::database::ServerDatabase<B>", "AsyncKeyValue"),
    ("bonsaidb_server::server::database::ServerDatabase<B>", "AsyncPubSub"),
    ("bonsaidb_server::server::database::ServerDatabase<B>", "HasSession"),
    ("bonsaidb::any_connection::AnyServerConnection<B>", "AsyncStorageConnection"),
    ("bonsaidb::any_connection::AnyServerConnection<B>", "HasSession"),
    ("bonsaidb::any_connection::AnyDatabase<B>", "AsyncConnection"),
    ("bonsaidb::any_connection::AnyDatabase<B>", "AsyncLowLevelConnection"),
    ("bonsaidb::any_connection::AnyDatabase<B>", "HasSession"),
    ("bonsaidb_core::keyvalue::implementation::namespaced::Namespaced<'a, K>", "KeyValue"),
    ("bonsaidb_core::keyvalue::implementation::namespaced::Namespaced<'a, K>", "AsyncKeyValue"),
]
# implemented in their own right, or building a handle: (wrapper, method) -> reason
SKIP = {
    ("Storage", "authenticate"): "decides by itself (C02)", ("Storage", "assume_identity"): "decides by itself (C02)",
    ("Storage", "add_permission_group_to_user"): "decides by itself (C01)", ("Storage", "remove_permission_group_from_user"): "decides by itself (C01)",
    ("Storage", "add_role_to_user"): "decides by itself (C01)", ("Storage", "remove_role_from_user"): "decides by itself (C01)",
    ("Storage", "database"): "opens the database itself (C20)",
    ("CustomServer", "admin"): "builds a handle from what it already holds", ("ServerDatabase", "storage"): "returns the server it was opened through",
    ("Namespaced", "key_namespace"): "is the namespace itself", ("Namespaced", "with_key_namespace"): "replaces the namespace",
}


def trait_of(fn):
    """short trait name of a callee path"""
    p = fn.path
    parts = p.rsplit("::", 2)
    return parts[-2] if len(parts) > 1 else ""


def check(ctx):
    F = ctx.F
    TT = ctx.terms()
    n = 0
    for ty, tr in WRAPPERS:
        im = [i for i in F.impls if i.get("self") == ty and (i.get("trait") or "").split("<")[0].rsplit("::", 1)[-1] == tr]
        if not im:
            ctx.fail("anchor:%s:%s" % (short(ty), tr), "", "this wrapper no longer implements the trait")
            continue
        for name, h, th in im[0]["items"]:
            b = F.bodies.get(h)
            if b is None or b.kind != "fn":
                continue
            if (short(ty).split("<")[0], name) in SKIP:
                continue
            n += 1
            one(ctx, F, TT, ty, tr, name, b)
    ctx.floor("wrapper methods", n, 120)
    namespaced(ctx, F, TT)


NSP = "bonsaidb_core::keyvalue::implementation::namespaced::Namespaced<'a, K>"


def namespaced(ctx, F, TT):
    """A namespaced handle reports its own namespace, whatever it wraps."""
    for i in F.impls:
        if i.get("self") != NSP:
            continue
        for n, h, th in i["items"]:
            b = F.bodies.get(h)
            if n == "key_namespace" and b is not None:
                t = TT.norm(TT.local(TT.frame(b), 0, ()))
                ctx.ob("%s::key_namespace" % short(i["trait"]), all(wire.is_field(TT, a, b, 1, "namespace") for a in alts(t)), ctx.where(b), "returns %s" % show(t))
            if n == "with_key_namespace" and b is not None:
                t = TT.norm(TT.local(TT.frame(b), 0, ()))
                ok = any(x.k == "par" and x.d[0] == b.h and x.d[1] == 2 for x in TT.walk(t, 0))
                ctx.ob("%s::with_key_namespace" % short(i["trait"]), ok, ctx.where(b), "the new handle's namespace is not the one asked for: %s" % show(t))


def one(ctx, F, TT, ty, tr, name, b):
    nm = "%s as %s::%s" % (short(ty).split("<")[0], tr, name)

    def target(c):
        if short(c.fn.path) != name and short(c.path) != name:
            return False
        t = trait_of(c.fn)
        return True

    def args(c):
        out = []
        for a in alts(TT.norm(c.arg(0))):
            r, f = fwd.unwrap(a)
            out.append((fwd.is_par(r, b, 1), "performed on %s, not on what the handle wraps" % show(a)))
        k = len(c.args)
        out.append((k == b.argc, "takes %d arguments, the wrapper takes %d" % (k, b.argc)))
        for i in range(1, min(k, b.argc)):
            for a in alts(TT.norm(c.arg(i))):
                out.append((wire.is_field(TT, a, b, i + 1, ""), "argument %d is %s" % (i, show(a))))
        return out
    fwd.forward(ctx, TT, b, nm, {name}, target, args, name not in ("storage", "session", "receiver", "admin"))
    if name not in ("session", "receiver"):
        t = TT.awaited(TT.local(TT.frame(b), 0, ()), 0)
        made = any(x.k == "call" and short(x.d[0]) == name for x in TT.walk(t, 2)) or unit(b)
        ctx.ob("%s:result" % nm, made, ctx.where(b), "what is returned (%s) is not made from the wrapped operation's result" % show(t)[:160])


def unit(b):
    """Nothing but success or failure is returned."""
    return "Result<(), " in b.locals[0].s
