"""C27: typed handles denote exactly the operation they name, with the caller's arguments, blocking and asynchronous alike."""
from terms import short
from explore import res_ok, res_err
import c11
import c27b
import prov
import proto
from prov import Prov, inner, swallowed, want, SELECT

EXPLAIN = ("Each method of the typed handles (collections, lists, views, collection documents, entries, serialized collections, key-value builders, transactions) is explored over "
           "compiler MIR on every path, through all generic layers, down to the primitive operation of the connection; what each argument of the "
           "primitive is made from (which parameters, which of their fields, which constants, through which conversions) is compared with the "
           "meaning of the method, written down once for the blocking and the asynchronous form. Chainable methods are explored for the fields they set.")
RULE = ("On every path a typed method performs its primitive operation once, on the connection it was given, with exactly the arguments its table entry states, succeeds only "
        "if it did, and hands on the whole result; a method that saves returns or stores the header the operation reported. A chainable method sets the field it is "
        "named after to its argument and leaves the others. Modifying reloads the document after a conflict, and only then, applies the change to what is "
        "saved, and returns only after a save succeeded or failed for another reason; an entry inserts only if nothing was found.")
ASSUME = ["Serialization of contents and keys round-trips (the format's own contract).", "C01, C03, C06 (what the connection does with the primitive operation)."]
CO = "bonsaidb_core::"
CN = CO + "connection::"
LL = CN + "lowlevel::%sLowLevelConnection::"
SC = CO + "schema::collection::"
KV = CO + "keyvalue::implementation::"
CD = CO + "document::collection::CollectionDocument::<C>::"
PRIM = ("apply_transaction get_from_collection get_multiple_from_collection list_from_collection list_headers_from_collection count_from_collection "
        "compact_collection_by_name query_by_name reduce_by_name reduce_grouped_by_name delete_docs_by_name query_by_name_with_docs execute_key_operation "
        "publish_bytes publish_bytes_to_all subscribe_to_bytes unsubscribe_from_bytes").split()
STORES = {"update", "update_async", "overwrite"}        # methods that put the header they are told into the document
def opaque(F):
    names = ("collection_name", "serialize", "natural_id", "header", "map_result", "serialized", "view_name", "prepare", "to_prefix_range", "schematic", "key_namespace")
    o = {p for p in F.by_path if "bonsaidb_core::" in p and short(p) in names}
    o |= {p for p in F.by_path if p.startswith(CN + "Bound") and short(p) in ("map", "map_ref", "deserialize", "as_ord_bytes", "borrowed", "owned")}
    o |= {CN + "RangeRef::<'a, TOwned, TBorrowed>::" + n for n in ("borrowed", "owned")}
    o |= {p for p in F.by_path if p.startswith("<" + CN + "RangeRef") and short(p) == "from"}
    return o | prov.LOSSY | {p for p in F.by_path if p.endswith(("DocumentId::new", "Schematic::view"))}


NAME = "/collection_name"
VIEW = "%s/schematic view view_name"
# method -> primitive, its arguments; alternatives separated by |.  Fields of one argument are given as Name.field=...
VARGS = {"query": ("query_by_name", "KEY", ".sort p1", ".limit p1", ".access_policy p1"), "query_with_docs": ("query_by_name", "KEY", ".sort p1", ".limit p1", ".access_policy p1"),
         "query_with_collection_docs": ("query_by_name", "KEY", ".sort p1", ".limit p1", ".access_policy p1"),
         "reduce": ("reduce_by_name", "KEY", ".access_policy p1"), "reduce_grouped": ("reduce_grouped_by_name", "KEY", ".access_policy p1"), "delete_docs": ("delete_docs_by_name", "KEY", ".access_policy p1")}


def insert(conn, i, contents):
    return ("apply_transaction", conn, {"Operation.collection": NAME, "Insert.id": i, "Insert.contents": contents})


def table():
    """(path, primitive, arguments) for the blocking and the asynchronous form of each method"""
    out = []

    def both(sync, asy, prim, *args, **kw):
        out.append((sync, prim, args, kw))
        out.append((asy, prim, args, kw))
    for m, (prim, *args) in {
            "push": insert(".connection p1", "None/new?|p2/new natural_id", "p2/serialize"), "push_bytes": insert(".connection p1", "None/new?", "p2"),
            "insert": insert(".connection p1", "p2/new", "p3/serialize"), "insert_bytes": insert(".connection p1", "p2/new", "p3"),
            "update": ("apply_transaction", ".connection p1", {"Operation.collection": NAME, "Update.header": "p2/header into_header?", "Update.contents": "p2"}),
            "overwrite": ("apply_transaction", ".connection p1", {"Operation.collection": NAME, "Overwrite.id": "p2/id new", "Overwrite.contents": "p2"}),
            "get": ("get_from_collection", ".connection p1", "p2/new", NAME), "get_multiple": ("get_multiple_from_collection", ".connection p1", "p2/new", NAME),
            "delete": ("apply_transaction", ".connection p1", {"Operation.collection": NAME, "Delete.header": "p2/header"})}.items():
        both(CN + "Collection::<'a, Cn, Cl>::" + m, CN + "AsyncCollection::<'a, Cn, Cl>::" + m, prim, *args)
    for pre in (CN, SC):
        for m, (prim, *args) in {"count": ("count_from_collection", ".collection .connection p1", ".range p1/map_result new", NAME),
                                 "headers": ("list_headers_from_collection", ".collection .connection p1", ".range p1/map_result new", ".sort p1", ".limit p1", NAME)}.items():
            both(pre + "List::<'a, Cn, Cl, PrimaryKey>::" + m, pre + "AsyncList::<'a, Cn, Cl, PrimaryKey>::" + m, prim, *args)
        out.append((pre + "List::<'a, Cn, Cl, PrimaryKey>::query", "list_from_collection", (".collection .connection p1", ".range p1/map_result new", ".sort p1", ".limit p1", NAME), {}))
    out.append(("<%sAsyncList<'a, Cn, Cl, PrimaryKey> as core::future::future::Future>::poll" % CN, "list", (".collection .connection p1", ".range p1", ".sort p1", ".limit p1"), {"poll": True}))
    for m, (prim, *args) in VARGS.items():
        a = [VIEW % ".connection p1 ", ".key p1/serialized"] + args[1:]
        both(CN + "View::<'a, Cn, V, Key>::" + m, CN + "AsyncView::<'a, Cn, V, Key>::" + m, prim, ".connection p1", *a, docs=m.startswith("query_with"))
        low = [VIEW % "p1 ", "p2/serialized"] + ["p%d" % (i + 3) for i in range(len(args) - 1)]
        both(LL % "" + m, LL % "Async" + m, prim, "p1", *low, docs=m.startswith("query_with"))
    for m, (prim, *args) in {
            "insert": insert("p1", "p2/new", "p3"), "update": ("apply_transaction", "p1", {"Operation.collection": NAME, "Update.header": "p2/header into_header?", "Update.contents": "p2"}),
            "overwrite": ("apply_transaction", "p1", {"Operation.collection": NAME, "Overwrite.id": "p2/new", "Overwrite.contents": "p3"}),
            "get": ("get_from_collection", "p1", "p2/new", NAME), "get_multiple": ("get_multiple_from_collection", "p1", "p2/new", NAME),
            "list": ("list_from_collection", "p1", "p2/map_result new", "p3", "p4", NAME), "list_headers": ("list_headers_from_collection", "p1", "p2/map_result new", "p3", "p4", NAME),
            "count": ("count_from_collection", "p1", "p2/map_result new", NAME), "delete": ("apply_transaction", "p1", {"Operation.collection": NAME, "Delete.header": "p2/header"})}.items():
        both(LL % "" + m, LL % "Async" + m, prim, *args)
    both(CN + "Connection::compact_collection", CN + "AsyncConnection::compact_collection", "compact_collection_by_name", "p1", NAME)
    for m, (prim, *args) in {
            "get": ("get_from_collection", "p2", "p1/new", NAME), "get_multiple": ("get_multiple_from_collection", "p2", "p1/new", NAME),
            "push": insert("p2", "None/new?|p1/new natural_id", "p1/serialize"), "push_into": insert("p2", "None/new?|p1/new natural_id", "p1/serialize"),
            "insert": insert("p3", "p1/new", "p2/serialize"), "insert_into": insert("p3", "p2/new", "p1/serialize"),
            "overwrite": ("apply_transaction", "p3", {"Operation.collection": NAME, "Overwrite.id": "p1/new", "Overwrite.contents": "p2/serialize"}),
            "overwrite_into": ("apply_transaction", "p3", {"Operation.collection": NAME, "Overwrite.id": "p2/new", "Overwrite.contents": "p1/serialize"})}.items():
        both(SC + "SerializedCollection::" + m, SC + "SerializedCollection::" + m + "_async", prim, *args)
    both(SC + "NamedCollection::delete_by_name", SC + "NamedCollection::delete_by_name_async", "delete_docs_by_name", "p2", VIEW % "p2 ", "Matches p1/serialized", "UpdateBefore")
    for m, (prim, *args) in {
            "update": ("apply_transaction", "p2", {"Operation.collection": NAME, "Update.header": ".contents .header p1/serialize to_document? header into_header?", "Update.contents": ".contents .header p1/serialize to_document?"}),
            "delete": ("apply_transaction", "p2", {"Operation.collection": NAME, "Delete.header": ".header p1/header?"}), "refresh": ("get_from_collection", "p2", ".header .id p1/new", NAME)}.items():
        both(CD + m, CD + m + "_async", prim, *args)
    both(CO + "transaction::Transaction::apply", CO + "transaction::Transaction::apply_async", "apply_transaction", "p2", "p1")
    def kv(m):
        return [KV + m + "::Builder::<'a, K%s>::" % ("" if m == "get" else ", V"), "<%s%s::AsyncBuilder<'a, K%s> as core::future::future::Future>::poll" % (KV, m, "" if m == "get" else ", V"),
                KV + m + "::AsyncBuilder::<'a, K%s>::" % ("" if m == "get" else ", V")]
    op = {"KeyOperation.namespace": ".namespace p1", "KeyOperation.key": ".key p1"}
    st = {"SetCommand." + f: ".%s p1" % f for f in ("expiration", "keep_existing_expiration", "check")}
    st["SetCommand.value"] = ".value p1/prepare"
    for path, cmd, poll in ((kv("get")[0] + "query", {"Get.delete": ".delete p1"}, False), (kv("get")[1], {"Get.delete": ".delete p1"}, True),
                            (kv("set")[0] + "execute", dict(st, **{"SetCommand.return_previous_value": "0"}), False), (kv("set")[1], dict(st, **{"SetCommand.return_previous_value": "0"}), True),
                            (kv("set")[0] + "returning_previous", dict(st, **{"SetCommand.return_previous_value": "1"}), False),
                            (kv("set")[2] + "returning_previous", dict(st, **{"SetCommand.return_previous_value": "1"}), False),
                            (kv("increment")[0] + "execute", {"Increment.amount": ".amount p1", "Increment.saturating": ".saturating p1"}, False),
                            (kv("increment")[1], {"Increment.amount": ".amount p1", "Increment.saturating": ".saturating p1"}, True)):
        out.append((path, "execute_key_operation", (".kv p1", dict(op, **cmd)), {"poll": poll}))
    both(KV + "KeyValue::delete_key", KV + "AsyncKeyValue::delete_key", "execute_key_operation", "p1", {"KeyOperation.namespace": "p1/key_namespace", "KeyOperation.key": "p2", "Delete.": ""})
    PS = CO + "pubsub::"
    for m, (prim, *args) in {"PubSub::publish": ("publish_bytes", "p1", "p2", "p3"), "PubSub::publish_to_all": ("publish_bytes_to_all", "p1", "p2", "p3"),
                             "Subscriber::subscribe_to": ("subscribe_to_bytes", "p1", "p2"), "Subscriber::unsubscribe_from": ("unsubscribe_from_bytes", "p1", "p2")}.items():
        both(PS + m, PS + "Async" + m, prim, *args)
    return out


def check(ctx):
    TT = ctx.terms(opaque=opaque(ctx.F))
    TT.state = frozenset(("header",))     # a document is stored under the header it has when that happens
    n = 0
    for path, prim, args, kw in table():
        n += denotes(ctx, TT, path, prim, args, **kw)
    ctx.floor("methods", n, 90)
    c27b.run(ctx, TT, prov)


def compare(ctx, TT, b, pre, w, t, spec, what):
    l, c = Prov(ctx, TT, b).of(t)
    ok = False
    for s in spec.split("|"):
        wl, wc = want(s)
        opt = {x[:-1] for x in wc if x.endswith("?")}
        wc = {x for x in wc if not x.endswith("?")}
        ok = ok or (l == wl and wc <= c <= wc | opt)
    if not ok and "|" in spec:              # several at once
        wl, wc = set(), set()
        for s in spec.split("|"):
            a, z = want(s)
            wl, wc = wl | a, wc | z
        ok = l == wl and c == wc
    ctx.ob(pre + ":" + what, ok, w, "the %s is made from %s through %s (expected: %s)" % (what, sorted(l), sorted(c), spec))


def parts(ctx, TT, t):
    """fields of the operation built in t: {'Insert.id': [terms]}"""
    out = {}
    for x in TT.walk(TT.norm(t), 0):
        if x.k == "agg" and x.d[0].startswith(CO) and x.d[0].rsplit("::", 1)[-1] in ("Operation", "Command", "KeyOperation", "SetCommand"):
            if not x.d[2]:
                out.setdefault(x.d[1] + ".", [])
            for f, v in x.d[2]:
                out.setdefault("%s.%s" % (x.d[1], f), []).append(v)
    return out


def denotes(ctx, TT, path, prim, args, docs=False, poll=False):
    b = ctx.need(path)
    if b is None:
        return 0
    pre = path.replace(CO, "").replace("schema::collection::", "")
    store = short(path) in STORES and prim == "apply_transaction" and "SerializedCollection" not in path and not path.endswith("LowLevelConnection::overwrite")

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "natural":
            return [(ps.set(nat=True), {(): 1}), (ps.set(nat=False), {(): 0})]
        if l == "store":
            lv, cl = Prov(ctx, TT, b).of(c.arg(1))
            ctx.ob(pre + ":reported-header", ps.n == 1 and ("overwrite" in cl or ".header" in lv and "apply_transaction" in cl), w, "the header stored in the document is %s through %s" % (sorted(lv), sorted(cl)))
            return [(ps.set(stored=True), res_ok()), (ps.set(bad=True), res_err())]
        if docs and n == "get_multiple_from_collection":
            lv, cl = Prov(ctx, TT, b).of(c.arg(1))
            sel = [x for x in cl if x in SELECT]
            ctx.ob(pre + ":documents", {".source", ".id"} <= lv and "new" in cl and not sel and ps.n == 1, w, "the documents asked for are %s through %s" % (sorted(lv), sorted(cl)))
            return [(ps.set(docs=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "mut":
            t = TT.norm(c.arg(0))
            if any(x.k == "call" and short(x.d[0]) in PRIMS | VERBS for x in inner(ctx, TT, t)):
                ctx.fail(pre + ":untouched-result", w, "the result is changed by `%s`" % n)
            return None
        if prim == "list" and ps.n and n in ("list_from_collection",):      # list's own work
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        ctx.ob(pre + ":operation", n == prim, w, "performs %s instead of %s" % (n, prim))
        ctx.ob(pre + ":once", ps.n == 0, w, "performs more than one operation")
        if n != prim:
            return [(ps.set(n=1), res_ok()), (ps.set(bad=True), res_err())]
        spec = [a for a in args]
        for i, s in enumerate(spec):
            if isinstance(s, dict):
                got = parts(ctx, TT, c.arg(i))
                if "Increment.amount" in s:
                    ctx.ob(pre + ":direction", ps.up is not None and ("Increment.amount" in got) != ("Decrement.amount" in got) and ("Increment.amount" in got) == ps.up, w, "the direction is the wrong one, or undecided")
                    got = {k.replace("Decrement", "Increment"): v for k, v in got.items()}
                for k, e in s.items():
                    ctx.ob(pre + ":" + k, k in got, w, "no %s is given to the operation (but %s)" % (k, sorted(got)))
                    for t in got.get(k, ()):
                        compare(ctx, TT, b, pre, w, t, e, k)
                        if k == "Insert.id" and "natural_id" in e:
                            cl = Prov(ctx, TT, b).of(t)[1]
                            ctx.ob(pre + ":natural", ps.nat is not None and (ps.nat is False or "natural_id" in cl), w, "the natural id of the contents is not used: through %s" % sorted(cl))
                kinds = {k.split(".")[0] for k in got} - OPS
                ex = {k.split(".")[0] for k in s} - OPS
                ctx.ob(pre + ":command", kinds == ex, w, "the command is %s" % sorted(kinds))
            else:
                compare(ctx, TT, b, pre, w, c.arg(i), s, "argument %d" % i)
        if prim == "list":
            return [(ps.set(n=1), {})]
        return [(ps.set(n=1), res_ok()), (ps.set(bad=True, n=1), res_err())]

    def ret(ps, val, st, ex):
        v = val.get(())
        if v == 0 or v is None and not ps.bad:
            ctx.ob(pre + ":done", ps.n == 1, ctx.where(b), "succeeds without having performed its operation")
            if docs:
                ctx.ob(pre + ":with-documents", ps.docs is True, ctx.where(b), "succeeds without having loaded the documents")
        if ps.bad:
            ctx.ob(pre + ":failed", v == 1, ctx.where(b), "a failure of the operation is not reported")
        if v == 0 and store and not ps.bad:
            ctx.ob(pre + ":stored", ps.stored is True and ("CollectionDocument" not in path or ps.back is True), ctx.where(b), "succeeds without putting the new header into the document")

    def assign(ps, st, place, rv, line, ex):
        if len(place) > 1 and place[-1][0] == "f" and place[-1][2] == "header" and rv[0] in ("use", "cast") and ps.stored and st.fr.body.h in kept:
            lv, cl = Prov(ctx, TT, b).of(ex.term(st, rv[1]))
            ctx.ob(pre + ":kept-header", ".header" in lv and bool(cl & {"to_document", "serialize"}), "%s:%d" % (st.fr.body.file, line), "the header kept is %s through %s" % (sorted(lv), sorted(cl)))
            return ps.set(back=True)
        return ps

    def branch(ps, st, o, src, val, ex):
        if "increment" in path and o[0] in ("c", "m") and val is not None:
            t = TT.norm(ex.term(st, o))
            if t.k == "fld" and t.d[1] == "increment" or t.k in ("par", "upv") and t.d[2] == "increment":
                return ps.set(up=bool(val))
        return ps
    ev = {"prim": PRIM if prim != "list" else PRIM + [LL % "Async" + "list"], "natural": ["natural_id"]}
    ev["mut"] = MUTS
    if store:
        ev["store"] = ["set_header", "set_collection_header"]
    root, frame = b, None
    if poll:            # the future's work is the async block it makes; that is where the operation is
        root = next((x for x in ctx.F.children[b.h] if x.kind == "coroutine"), None)
        clo = None
        for blk in b.blocks:
            for pl, rv, _ in (blk[0] if blk else ()):
                if rv and rv[0] == "agg" and rv[1] == "coroutine" and root is not None:
                    clo = rv
        if clo is None:
            ctx.fail(pre + ":future", ctx.where(b), "the future's work was not found")
            return 1
        fr = TT.frame(b)
        frame = TT.frame(root, fr, None, tuple((fr, o) for o in clo[6]), ("poll",))
    roots = {b.h} | {x.h for x in ctx.F.children.get(b.h, ())}
    kept = roots | {x.h for x in ctx.F.bodies.values() if x.path.startswith(CDOC) and keeps(x)}
    proto.run(ctx, TT, root, pre, ev, step, c11.rec(("n", "bad", "nat", "docs", "stored", "back", "up"), n=0), need=("prim",), ret=ret, assign=assign, branch=branch, frame=frame,
              reach_extra=lambda x: x.path.startswith(CDOC) and keeps(x))
    if not poll:
        results(ctx, TT, b, pre, path, prim)
    return 1


def results(ctx, TT, b, pre, path, prim):
    """what comes back is what the operation said, all of it"""
    P = Prov(ctx, TT, b)
    t = TT.local(TT.frame(b), 0, ())
    l, c = P.of(t)
    w = ctx.where(b)
    ctx.ob(pre + ":whole-result", not c & set(SELECT), w, "only part of the result is handed on: through %s" % sorted(c & set(SELECT)))
    ctx.ob(pre + ":errors", not swallowed(c), w, "an error is dropped on the way: %s" % swallowed(c))
    ctx.ob(pre + ":own-result", bool(c & (set(PRIM) | VERBS)), w, "the result is not the operation's (%s)" % sorted(c))
    if prim in ("query_by_name", "reduce_grouped_by_name") and "LowLevel" in path:
        for x in inner(ctx, TT, t):
            fs = dict(x.d[2]) if x.k == "agg" else {}
            if set(fs) in ({"source", "key", "value"}, {"key", "value"}):
                for f, v in fs.items():
                    g = P.of(v)[0] & {".source", ".key", ".value"}
                    ctx.ob(pre + ":entry-" + f, g == {"." + f}, w, "the %s of an entry is taken from its %s" % (f, sorted(g)))
    own = {"p2" if short(path).replace("_async", "") in ("insert", "overwrite") else "p1"}
    if prim == "apply_transaction":
        for x in TT.walk(TT.norm(t), 2):
            fs = dict(x.d[2]) if x.k == "agg" else {}
            if set(fs) == {"header", "contents"} and "SerializedCollection" in path and "CollectionDocument" in x.d[0]:
                l, c = P.of(fs["contents"])
                ctx.ob(pre + ":own-contents", l == own and not c, w, "the contents returned are made from %s through %s" % (sorted(l), sorted(c)))
                l, c = P.of(fs["header"])
                ctx.ob(pre + ":reported-header", bool(c & {"apply_transaction", "insert", "push", "overwrite"}), w, "the header returned is made through %s" % sorted(c))
            elif set(fs) == {"contents", "error"}:
                l, c = P.of(fs["contents"])
                ctx.ob(pre + ":own-contents", l == own and not c, w, "the contents returned are made from %s through %s" % (sorted(l), sorted(c)))


prov.MUTS = MUTS = [p + m for p, ms in (("alloc::vec::Vec::<T, A>::", "retain truncate dedup remove swap_remove clear drain pop dedup_by dedup_by_key retain_mut"),
                            ("core::slice::<impl [T]>::", "reverse swap rotate_left rotate_right sort_unstable sort_unstable_by sort_unstable_by_key"),
                            ("alloc::slice::<impl [T]>::", "sort sort_by sort_by_key sort_by_cached_key")) for m in ms.split()]
PRIMS = set(PRIM)
OPS = {"Operation", "KeyOperation", "SetCommand", "Set"}
VERBS = set("push push_async insert insert_async update overwrite overwrite_async get get_async get_multiple delete list list_headers count query query_with_docs query_with_collection_docs reduce reduce_grouped delete_docs".split())


CDOC = "bonsaidb_core::document::collection::CollectionDocument"


def keeps(b):
    """assigns a document's header"""
    return any(len(pl) > 1 and pl[-1][0] == "f" and pl[-1][2] == "header" for bl in b.blocks if bl for pl, rv, _ in bl[0])
