"""C19: what was backed up is restored."""
from terms import T, alts, short, show
from explore import res_ok, res_err
import c11
import c15
import fwd
import proto

EXPLAIN = ("Backing up and restoring are explored over compiler MIR on every path, with each access to the location and the storage failing and "
           "succeeding, and each iteration followed item by item; the arguments of what is stored, listed and loaded are compared as "
           "provenance terms. The closures that select items are explored on their own. The directory location's functions, the "
           "encoding of file names and the two textual forms of a document's id are checked in the same way.")
RULE = ("Every available database is backed up; of each, every document of every collection of its schema, and every key-value entry, is stored under "
        "its own schema, database, container and name. Every schema, database, collection (but the list of databases) and stored "
        "object listed is restored under the identity it was stored under; only a name that is none of this form is passed over. Nothing "
        "fails silently. The directory location reads exactly the file it wrote, escapes separators in file names, and lists names "
        "decoded. The text of an id that contains the marker of the hexadecimal form is written in that form.")
ASSUME = ["pot serialization round-trips; decoding a file name or id inverts encoding it, beyond the characters checked here.",
          "C15 (the list of all key-value entries is complete)."]
S = "bonsaidb_local::storage::"
IMPL = S + "backup::<impl bonsaidb_local::storage::Storage>::"
LOC = S + "backup::AnyBackupLocation"
BL = S + "backup::BackupLocation"
ID = "bonsaidb_core::document::id::DocumentId"
OPT = {"some": {(): 1}, "none": {(): 0}}


def calls(TT, t, name, depth=0):
    return [x for x in TT.walk(TT.norm(t), depth) if x.k == "call" and short(x.d[0]) == name]


def flds(TT, t, depth=0):
    return {x.d[1] for x in TT.walk(TT.norm(t), depth) if x.k == "fld"}


def root_of(ctx, name):
    return ctx.need(IMPL + name)


def check(ctx):
    TT = ctx.terms(opaque={IMPL + n for n in ("backup_database", "restore_database")} | {
        S + "StorageInstance::database_without_schema", "bonsaidb_local::database::keyvalue::<impl bonsaidb_local::database::Database>::all_key_value_entries",
        "<bonsaidb_local::database::Database as bonsaidb_core::connection::lowlevel::LowLevelConnection>::list_from_collection"})
    whole(ctx, TT)
    unwhole(ctx, TT)
    database(ctx, TT)
    restored(ctx, TT)
    entry(ctx, TT)
    wrappers(ctx, TT)
    directory(ctx, TT)
    encode(ctx, TT)
    ids(ctx, TT)


def elem_of(TT, t, name):
    """is the term an item of an iteration over the result of a call of `name` (or over a field of that name)?"""
    for a in alts(TT.norm(t)):
        for x in TT.walk(a, 0):
            if x.k == "elem" and any(y.k == "call" and short(y.d[0]) == name or y.k == "fld" and y.d[1] == name for y in TT.walk(x, 0)):
                return True
    return False


ITEMFN = ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by", "map_while", "take_while")


def selecting(TT, t):
    """adapters in the iterated term that may pass items over: (name, closure term or None)"""
    out = []
    for x in TT.walk(TT.norm(t), 0):
        if x.k == "call" and short(x.d[0]) in ITEMFN and "iter" in str(x.d[0]):
            out.append((short(x.d[0]), x.d[1][1] if len(x.d[1]) > 1 else None))
    return out


def is_own(TT, c, what, i, names):
    pass


# ---- all databases -------------------------------------------------------------------------------------
def whole(ctx, TT):
    b = root_of(ctx, "backup")
    if b is None:
        return

    def step(ps, l, c):
        w = c.where()
        if l == "iter":
            if "String" not in c11.item(c) or "available_databases" not in flds(TT, c.arg(0)) | flds(TT, TT.elem(TT.norm(c.arg(0)))):
                return None
            ctx.ob("all:databases", not selecting(TT, c.arg(0)), w, "not all databases are backed up: %s" % selecting(TT, c.arg(0)))
            ctx.ob("all:each-database", ps.done, w, "a database is passed over: it is not backed up")
            g = "available_databases" not in flds(TT, c.arg(0))     # over names gathered before
            return [(ps.set(done=False), {(): 1}), (ps.set(done=True, end=True, later=ps.later and not g), {(): 0})]
        if l == "gather":
            if not elem_of(TT, c.arg(1), "available_databases"):
                return None
            return [(ps.set(done=True, later=True), {})]
        if l == "open":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        o = [y for i in range(len(c.args)) for y in calls(TT, c.arg(i), "database_without_schema")]
        ctx.ob("all:that-database", bool(o) and all(elem_of(TT, y.d[1][1], "available_databases") for y in o), w, "the database backed up is %s" % show(c.arg(0))[:90])
        ctx.ob("all:location", is_location(TT, b, c.arg(1)), w, "it is stored at %s" % show(c.arg(1))[:60])
        return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("all:finished", ps.end and not ps.later and not ps.bad, ctx.where(b), "a backup succeeds although %s" % ("a step of it failed" if ps.bad else "not all databases were visited"))
    proto.run(ctx, TT, b, "backup", {"iter": [proto.ITER], "open": [S + "StorageInstance::database_without_schema"], "save": [IMPL + "backup_database"], "gather": ["alloc::vec::Vec::<T, A>::push"]}, step,
              c11.rec(("done", "end", "bad", "later"), done=True, end=False, bad=False, later=False), need=("iter", "open", "save"), ret=ret)


def is_location(TT, b, t):
    r, f = fwd.unwrap(TT.norm(t))
    return r.k == "par" and r.d[0] == b.h and r.d[1] == 2 and not [x for x in f if x != "*"]


def unwhole(ctx, TT):
    b = root_of(ctx, "restore")
    if b is None:
        return

    def step(ps, l, c):
        w = c.where()
        if l == "schemas":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "databases":
            ctx.ob("restore:schema", elem_of(TT, c.arg(1), "list_schemas"), w, "the databases listed are those of %s" % show(c.arg(1))[:80])
            return [(ps.set(schema=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "iter":
            it = c11.item(c)
            t = c.arg(0)
            if calls(TT, t, "list_databases"):
                ctx.ob("restore:databases", not selecting(TT, t), w, "not all stored databases are restored: %s" % selecting(TT, t))
                ctx.ob("restore:each-database", ps.done, w, "a stored database is passed over")
                return [(ps.set(done=False), {(): 1}), (ps.set(done=True), {(): 0})]
            if calls(TT, t, "list_schemas"):
                ctx.ob("restore:schemas", not selecting(TT, t), w, "not all stored schemas are restored: %s" % selecting(TT, t))
                ctx.ob("restore:each-schema", ps.schema, w, "a stored schema is passed over")
                return [(ps.set(schema=False), {(): 1}), (ps.set(schema=True, end=True), {(): 0})]
            return None
        if l in ("create", "open"):
            ctx.ob("restore:name", elem_of(TT, c.arg(1), "list_databases"), w, "the database restored is %s" % show(c.arg(1))[:80])
            if l == "create":
                s = c.arg(2)
                ctx.ob("restore:its-schema", elem_of(TT, s, "list_schemas") and not elem_of(TT, s, "list_databases"), w, "it is created with the schema %s" % show(s)[:80])
                ctx.ob("restore:existing", show(c.arg(3)) in ("1", "true"), w, "a database that exists already (the list of databases itself does) is created again")
                return [(ps.set(made=True), res_ok()), (ps.set(bad=True), res_err())]
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        ctx.ob("restore:created", ps.made, w, "the contents of a database are restored before it is created")
        o = [y for i in range(len(c.args)) for y in calls(TT, c.arg(i), "database_without_schema")]
        ctx.ob("restore:that-database", bool(o) and all(elem_of(TT, y.d[1][1], "list_databases") for y in o), w, "what is restored is %s" % show(c.arg(0))[:90])
        ctx.ob("restore:location", is_location(TT, b, c.arg(1)), w, "it is read from %s" % show(c.arg(1))[:60])
        return [(ps.set(done=True, made=False), res_ok()), (ps.set(bad=True), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("restore:finished", ps.end and not ps.bad, ctx.where(b), "restoring succeeds although %s" % ("a step of it failed" if ps.bad else "not all schemas were visited"))
    proto.run(ctx, TT, b, "restore", {"iter": [proto.ITER], "open": [S + "StorageInstance::database_without_schema"], "load": [IMPL + "restore_database"],
                                      "create": ["create_database_with_schema"], "schemas": [LOC + "::list_schemas"], "databases": [LOC + "::list_databases"]}, step,
              c11.rec(("done", "schema", "end", "bad", "made"), done=True, schema=True, end=False, bad=False, made=False), need=("iter", "open", "load", "create"),
              ret=ret, stop=lambda x: short(x.path) == "create_database_with_schema")


# ---- the contents of one database ----------------------------------------------------------------------
def own(TT, b, t, name):
    """a value of the database given as the first argument"""
    for a in alts(TT.norm(t)):
        x = a
        while x.k == "call" and short(x.d[0]) in ("name", "schematic") and x.d[1]:
            x = TT.norm(x.d[1][0])
        r, f = fwd.unwrap(x)
        f = [y for y in f if y != "*"]
        while r.k == "call" and short(r.d[0]) in ("name", "schematic") and r.d[1]:
            r, g = fwd.unwrap(TT.norm(r.d[1][0]))
            f = [y for y in g if y != "*"] + f
        if not (r.k == "par" and r.d[0] == b.h and r.d[1] == 1):
            return False
        if name == "schema" and not ("schema" in f or a.k == "call" or "name" in f):
            return False
        if name == "schema" and f and f[-1] != "name":
            return False
        if name == "schema" and "schema" not in f:
            return False
        if name == "name" and ("schema" in f or not (f and f[-1] == "name" or a.k == "call" and short(a.d[0]) == "name")):
            return False
    return True


def place(ctx, TT, b, c, key):
    """schema and database under which something is kept; returns the kind of container"""
    w = c.where()
    ctx.ob("%s:schema" % key, own(TT, b, c.arg(1), "schema"), w, "the schema it is kept under is %s" % show(c.arg(1))[:80])
    ctx.ob("%s:database" % key, own(TT, b, c.arg(2), "name"), w, "the database it is kept under is %s" % show(c.arg(2))[:80])
    t = TT.norm(c.arg(3))
    if t.k == "str":
        return t.d[0]
    if elem_of(TT, t, "contained_collections") or elem_of(TT, t, "collections"):
        return "collection"
    return show(t)[:80]


def template(TT, t):
    """(text, arguments) of a formatted string"""
    out = []
    for x in TT.walk(TT.norm(t), 1):
        if x.k == "call" and short(x.d[0]) == "new" and len(x.d[1]) == 2 and x.d[1][0].k == "str":
            out.append((x.d[1][0].d[0], x.d[1][1]))
    return out


def database(ctx, TT):
    b = root_of(ctx, "backup_database")
    if b is None:
        return
    keys = {}

    def step(ps, l, c):
        w = c.where()
        if l in ("list", "entries"):
            if l == "list":
                r = TT.norm(c.arg(1))
                ctx.ob("documents:all", (r.k == "agg" and short(r.d[0]) == "RangeFull" or full_range(TT, r)), w, "the documents listed are those of %s" % show(r)[:60])
                lim = TT.norm(c.arg(3))
                ctx.ob("documents:unlimited", lim.k == "agg" and lim.d[1] == "None", w, "the list of documents is limited by %s" % show(lim)[:60])
                ctx.ob("documents:collection", elem_of(TT, c.arg(4), "contained_collections") or elem_of(TT, c.arg(4), "collections"), w, "the collection listed is %s" % show(c.arg(4))[:80])
                return [(ps.set(col=True), res_ok()), (ps.set(bad=True), res_err())]
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "iter":
            t = c.arg(0)
            it = c11.item(c)
            kind = "doc" if calls(TT, t, "list_from_collection") else "kv" if calls(TT, t, "all_key_value_entries") else \
                "col" if "CollectionName" in it and flds(TT, t) & {"contained_collections"} or calls(TT, t, "collections") else None
            if kind is None:
                return None
            sel = selecting(TT, t)
            ctx.ob("contents:all-%s" % kind, not sel, w, "not all items are backed up: %s" % sel)
            f = {"doc": "doc", "kv": "kv", "col": "col"}[kind]
            v = getattr(ps, f)
            ctx.ob("contents:each-%s" % kind, v is not False, w, {"doc": "a document is not stored", "kv": "a key-value entry is not stored", "col": "the documents of a collection are not backed up"}[kind])
            n = ps.set(**{f: False})
            e = ps.set(**{f: None})
            if kind == "kv":
                e = e.set(kvend=True)
            if kind == "col":
                e = e.set(colend=True)
            return [(n, {(): 1}), (e, {(): 0})]
        if l == "pack":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        ctx.ob("store:location", fwd.unwrap(TT.norm(c.arg(0)))[0].k == "par", w, "it is stored in %s" % show(c.arg(0))[:60])
        k = place(ctx, TT, b, c, "store")
        name, obj = TT.norm(c.arg(4)), TT.norm(c.arg(5))
        ok, bad = res_ok(), ps.set(bad=True)
        if k == "collection":
            ids = lambda t, last: any(last in f and f[-1] == last for f in paths_from(TT, t, "list_from_collection"))
            ctx.ob("store:id", ids(name, "id"), w, "the document is stored as %s" % show(name)[-80:])
            ctx.ob("store:contents", any(f[-1] == "contents" for f in paths_from(TT, obj, "list_from_collection") if f), w, "what is stored is %s" % show(obj)[-80:])
            keys.setdefault("collection", []).append(strip(TT, c.arg(3)))
            return [(ps.set(doc=True), ok), (bad, res_err())]
        tm = template(TT, name)
        parts = []
        for txt, args in tm:
            ps_ = [paths_from(TT, a, "all_key_value_entries") for _, a in args.d[2]] if args.k == "agg" else []
            parts = [sorted({x[-2:] for x in p if len(x) >= 2})[:1] for p in ps_]
        ctx.ob("store:entry-name", len(tm) == 1 and parts == [[("0", "0")], [("0", "1")]], w, "the entry is stored as %s" % show(name)[:90])
        vals = [f for x in calls(TT, obj, "to_vec") for f in paths_from(TT, x, "all_key_value_entries")]
        ctx.ob("store:entry", any(f[-1:] == ("1",) for f in vals), w, "what is stored for it is %s" % show(obj)[-80:])
        keys.setdefault("kv", []).append((k, tm[0][0] if tm else None))
        return [(ps.set(kv=True), ok), (bad, res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("contents:collections", ps.colend is True, ctx.where(b), "a database is backed up without its collections having been visited")
            ctx.ob("contents:entries", ps.kvend is True, ctx.where(b), "a database is backed up without its key-value entries")
            ctx.ob("contents:failed", not ps.bad, ctx.where(b), "a failure to back up is not reported")
    proto.run(ctx, TT, b, "contents", {"iter": [proto.ITER], "list": ["list_from_collection"], "entries": ["all_key_value_entries"], "store": [LOC + "::store"], "pack": ["pot::to_vec"]}, step,
              c11.rec(("col", "doc", "kv", "bad", "kvend", "colend")), need=("iter", "list", "entries", "store"), ret=ret, stop=lambda x: short(x.path) in ("list_from_collection", "all_key_value_entries"))
    ctx.stored = keys


def full_range(TT, r):
    return r.k == "call" and short(r.d[0]) in ("from", "into", "default") and not r.d[1] or r.k == "agg" and len(r.d[2]) == 2 and all(v.k == "agg" and v.d[1] == "Unbounded" for _, v in r.d[2])


def paths_from(TT, t, name):
    """field paths by which the term is derived from items of a call's result"""
    out = []

    def go(x, f):
        x = TT.norm(x)
        for a in alts(x):
            if a.k == "fld":
                go(a.d[0], (a.d[1],) + f)
            elif a.k == "elem":
                go(a.d[0], f)
            elif a.k == "call":
                if short(a.d[0]) == name:
                    out.append(f)
                elif f == () or short(a.d[0]) in ("collect", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
                    for y in a.d[1]:
                        go(y, ())if short(a.d[0]) not in ("collect",) else go(y, f)
            elif a.k == "agg":
                for _, y in a.d[2]:
                    go(y, f)
    go(t, ())
    return out


def strip(TT, t):
    """the shape of a container's name: functions applied to the collection"""
    def go(x, d=0):
        x = TT.norm(x)
        if x.k == "elem" or d > 8:
            return "each"
        if x.k == "call":
            return (short(x.d[0]),) + tuple(go(y, d + 1) for y in x.d[1])
        if x.k == "agg":
            return (x.d[1],) + tuple(go(y, d + 1) for _, y in x.d[2])
        return show(x)
    return go(t)


# ---- restoring one database -----------------------------------------------------------------------------
def is_list_of_databases(TT, c, t):
    """the name of the collection that lists the databases"""
    for x in TT.walk(TT.norm(t), 0):
        if x.k == "call" and short(x.d[0]) == "collection_name":
            fn = x.x[0] if x.x else None
            a = fn.args[0].s if fn is not None and fn.args and hasattr(fn.args[0], "s") else ""
            if a.endswith("admin::database::Database"):
                return True
        if x.k == "agg" and x.d[0].endswith("names::CollectionName") and x == list_name(TT):
            return True
    return False


def list_name(TT):
    m = TT.F.method("bonsaidb_core::admin::database::Database", "bonsaidb_core::schema::collection::Collection", "collection_name")
    return TT.norm(TT.local(TT.frame(m), 0, ())) if m is not None else None


EQS = ("eq", "ne")


def eq_step(ctx, TT, ps, c, i_set):
    l, r = c.arg(0), c.arg(1)
    if is_list_of_databases(TT, c, l) or is_list_of_databases(TT, c, r):
        e = short(c.path) == "eq"
        return [(i_set(ps, True), {(): int(e)}), (i_set(ps, False), {(): int(not e)})]
    return None


def selector(ctx, TT, clo, key, allow, what):
    """a closure that selects items: passes one over only where `allow` says so"""
    if clo is None or clo.k != "clo":
        ctx.fail(key, "", "items are selected by %s" % (show(clo) if clo is not None else "a number"))
        return
    b = ctx.F.bodies[clo.x[0]]

    def step(ps, l, c):
        if l == "eq":
            return eq_step(ctx, TT, ps, c, lambda p, v: "list" if v else "other")
        return [(ps, res_ok()), ("unparsed", res_err())]

    def ret(ps, val, st, ex):
        v = val.get(())
        ctx.ob(key, v == 1 or ps in allow, ctx.where(b), what)
        if "list" in allow:
            ctx.ob("restored:not-the-list", v == 0 or ps == "other", ctx.where(b), "the list of databases is restored, although restoring each of them makes its entry")
    proto.run(ctx, TT, b, key, {"eq": EQS, "parse": ["from_str", "parse"]}, step, "no", ret=ret, frame=frame_of(TT, b, clo))


def frame_of(TT, b, clo):
    return TT.frame(b, clo.x[1], None, tuple((clo.x[1], o) for o in clo.x[2]), ("cb",))


def restored(ctx, TT):
    b = root_of(ctx, "restore_database")
    if b is None:
        return
    sel = set()
    keys = {}

    def step(ps, l, c):
        w = c.where()
        if l == "eq":
            if any(calls(TT, c.arg(i), "split_once") and TT.norm(c.arg(1 - i)) == T("str", ("",)) for i in (0, 1)):
                e = short(c.path) == "eq"
                return [(ps.set(empty=True), {(): int(e)}), (ps.set(empty=False), {(): int(not e)})]
            if any(is_list_of_databases(TT, c, c.arg(i)) for i in (0, 1)):
                return eq_step(ctx, TT, ps, c, lambda p, v: p.set(col=True, other=False) if v else p.set(other=True))
            return None
        if l == "listed":
            k = place(ctx, TT, b, c, "list")
            if k == "collection":
                keys.setdefault("collection", []).append(strip(TT, c.arg(3)))
                ctx.ob("restored:not-the-list", ps.other is True or any(k == "col" and n == "filter" for k, n, _, _ in sel), w, "the list of databases is restored, although restoring each of them makes its entry")
                return [(ps.set(col=True), res_ok()), (ps.set(bad=True), res_err())]
            keys.setdefault("kv", []).append(k)
            return [(ps.set(kvs=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "iter":
            t = c.arg(0)
            ls = calls(TT, t, "list_stored")
            if not ls:
                if not ("CollectionName" in c11.item(c) and flds(TT, t) & {"contained_collections"} or calls(TT, t, "collections")):
                    return None
                for n, x in selecting(TT, t):
                    sel.add(("col", n, x, w))
                ctx.ob("restored:each-collection", ps.col is not False, w, "a collection's documents are not restored")
                return [(ps.set(col=False, other=None), {(): 1}), (ps.set(col=None, colend=True), {(): 0})]
            kv = any(a.k == "str" for x in ls for a in [TT.norm(x.d[1][3])])
            for n, x in selecting_above(TT, t):
                sel.add(("kv" if kv else "doc", n, x, w))
            f = "kv" if kv else "doc"
            ctx.ob("restored:each-%s" % f, getattr(ps, f) is not False, w, "a stored %s is not restored" % ("key" if kv else "document"))
            return [(ps.set(**{f: False}), {(): 1}), (ps.set(**{f: None}), {(): 0})]
        if l == "parse":
            return [(ps, res_ok()), (ps.set(doc=True), res_err())]
        if l == "split":
            keys.setdefault("sep", []).append(show(TT.norm(c.arg(1))).strip('"'))
            return [(ps, {(): 1}), (ps.set(kv=True), {(): 0})]
        if l == "load":
            k = place(ctx, TT, b, c, "load")
            n = c.arg(4)
            ls = calls(TT, n, "list_stored")
            ctx.ob("load:listed", bool(ls) and all(TT.norm(x.d[1][3]) == TT.norm(c.arg(3)) for x in ls), w, "what is loaded is %s" % show(n)[:80])
            ctx.ob("load:name", n_is_name(TT, n), w, "what is loaded is not what is stored under the listed name: %s" % show(n)[:80])
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "unpack":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "push":
            op = [x for x in TT.walk(TT.norm(c.arg(1)), 2) if x.k == "agg" and x.d[0].endswith("transaction::Operation")]
            ctx.ob("push:operation", len(op) >= 1, w, "the operation restoring a document is %s" % show(c.arg(1))[:80])
            for o in op:
                f = dict(o.d[2])
                cm = TT.norm(f["command"])
                ctx.ob("push:collection", elem_of(TT, f["collection"], "contained_collections") or elem_of(TT, f["collection"], "collections"), w, "a document is restored to %s" % show(f["collection"])[:80])
                if not (cm.k == "agg" and cm.d[1] in ("Insert", "Overwrite")):
                    ctx.fail("push:insert", w, "a document is restored by %s" % show(cm)[:60])
                    continue
                g = dict(cm.d[2])
                idt = TT.norm(g["id"])
                lo = calls(TT, g["contents"], "load")
                ctx.ob("push:contents", len(lo) >= 1, w, "the restored contents are %s" % show(g["contents"])[:80])
                idl = calls(TT, idt, "list_stored")
                ctx.ob("push:id", bool(idl) and not calls(TT, idt, "load") and not (idt.k == "agg" and idt.d[1] == "None"), w, "the restored id is %s" % show(idt)[:80])
            return [(ps.set(doc=True, todo=True), {})]
        if l == "apply":
            return [(ps.set(todo=False), res_ok()), (ps.set(bad=True), res_err())]
        if l == "set":
            x = c.arg(0)
            ctx.ob("entry:loaded", bool(calls(TT, x, "load")), w, "the entry restored is %s" % show(x)[:80])
            ns, key = TT.norm(c.arg(1)), TT.norm(c.arg(2))
            sp = [[f for f in paths_of_split(TT, y)] for y in (ns, key)]
            nn = [a for a in alts(ns) if a.k == "agg" and a.d[1] == "None"]
            ctx.ob("entry:key", sp[1] == ["1"], w, "the key restored is %s" % show(key)[:80])
            ctx.ob("entry:namespace", sp[0] in (["0"], []) and bool(sp[0] or nn), w, "the namespace restored is %s" % show(ns)[:80])
            if not sp[0]:
                ctx.ob("entry:no-namespace", ps.empty is True, w, "an entry is restored without its namespace")
            else:
                none = (c.ex.opval(c.st.env, c.fr, c.args[1]) or {}).get(()) == 0
                ctx.ob("entry:some-namespace", ps.empty is False and not none or ps.empty is True and (none or bool(nn)), w, "an entry without namespace is restored to the empty namespace")
            ctx.ob("entry:database", fwd.unwrap(TT.norm(c.arg(3)))[0].k == "par" and fwd.unwrap(TT.norm(c.arg(3)))[0].d[1] == 1, w, "it is restored to %s" % show(c.arg(3))[:60])
            return [(ps.set(kv=True, empty=None), res_ok()), (ps.set(bad=True), res_err())]
        if l == "empty":
            if not calls(TT, c.arg(0), "split_once"):
                return None
            return [(ps.set(empty=True), {(): 1}), (ps.set(empty=False), {(): 0})]
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("restored:collections", ps.colend is True, ctx.where(b), "restoring a database succeeds without its collections having been visited")
            ctx.ob("restored:entries", ps.kvs is True, ctx.where(b), "restoring a database succeeds without its key-value entries")
            ctx.ob("restored:applied", not ps.todo, ctx.where(b), "restored documents are not applied")
            ctx.ob("restored:failed", not ps.bad, ctx.where(b), "a failure to restore is not reported")
    proto.run(ctx, TT, b, "restored", {"iter": [proto.ITER], "listed": [LOC + "::list_stored"], "load": [LOC + "::load"], "unpack": ["pot::from_slice"], "push": ["bonsaidb_core::transaction::Transaction::push"],
                                       "apply": ["apply_transaction"], "set": ["bonsaidb_local::database::keyvalue::Entry::restore"], "eq": EQS, "parse": ["from_str", "parse"], "split": ["split_once"], "empty": ["is_empty"]}, step,
              c11.rec(("col", "doc", "kv", "bad", "colend", "kvs", "todo", "empty", "other")), need=("iter", "listed", "load", "push", "apply", "set"), ret=ret, kcap=32,
              stop=lambda x: short(x.path) in ("apply_transaction", "restore"), quiet=("empty", "eq", "parse", "split"))
    for kind, n, x, w in sorted(sel, key=str):
        if kind == "col":
            what = "a collection other than the list of databases is not restored"
            if n == "filter":
                selector(ctx, TT, x, "restored:all-collections", ("list",), what)
                continue
        else:
            what = "a stored name that can be read is passed over"
            if n == "filter_map" and kind == "doc":
                selector(ctx, TT, x, "restored:all-documents", ("unparsed",), what)
                continue
        ctx.fail("restored:all:%s" % kind, w, "%s (`%s`)" % (what, n))
    st = getattr(ctx, "stored", {})
    ctx.ob("agree:collections", set(st.get("collection", ())) == set(keys.get("collection", (1,))), ctx.where(b), "documents are stored in %s and looked for in %s" % (st.get("collection"), keys.get("collection")))
    kvs = {k for k, _ in st.get("kv", ())}
    ctx.ob("agree:entries", kvs == set(keys.get("kv", ())) and len(kvs) == 1, ctx.where(b), "key-value entries are stored in %s and looked for in %s" % (sorted(kvs), keys.get("kv")))
    seps = set(keys.get("sep", ()))
    ctx.ob("agree:separator", len(seps) == 1 and all(t is not None and t.count(s) == 1 for s in seps for _, t in st.get("kv", ())), ctx.where(b),
           "the namespace and key of an entry are separated by %s, but stored as %r" % (sorted(seps), [t for _, t in st.get("kv", ())]))


def selecting_above(TT, t):
    """selecting adapters between the iteration and the list it is over"""
    out = []
    x = TT.norm(t)
    while x.k == "call" and short(x.d[0]) != "list_stored" and x.d[1]:
        if short(x.d[0]) in ITEMFN:
            out.append((short(x.d[0]), x.d[1][1] if len(x.d[1]) > 1 else None))
        x = TT.norm(x.d[1][0])
    return out


def n_is_name(TT, t):
    """the listed name itself (possibly as the second part of a pair made from it), not something computed from it"""
    for a in alts(TT.norm(t)):
        while a.k in ("fld", "elem") or a.k == "call" and short(a.d[0]) in ("filter", "filter_map", "map", "zip", "inspect") and a.d[1]:
            a = TT.norm(a.d[0] if a.k != "call" else a.d[1][0])
        if not (a.k == "call" and short(a.d[0]) == "list_stored"):
            return False
    return True


def paths_of_split(TT, t):
    return sorted({y.d[1] for y in TT.walk(TT.norm(t), 0) if y.k == "fld" and y.d[0].k == "call" and short(y.d[0].d[0]) == "split_once" or y.k == "fld" and y.d[1] in ("0", "1") and calls(TT, y.d[0], "split_once")})


def entry(ctx, TT):
    """an entry is restored with its value and expiration, unconditionally"""
    b = ctx.need("bonsaidb_local::database::keyvalue::Entry::restore")
    if b is None:
        return

    def par(t, i, f=()):
        r, g = fwd.unwrap(TT.norm(t))
        return r.k == "par" and r.d[0] == b.h and r.d[1] == i and tuple(x for x in g if x != "*") == f

    def step(ps, l, c):
        w = c.where()
        ops = [x for x in TT.walk(TT.norm(c.arg(1)), 1) if x.k == "agg" and x.d[0].endswith("keyvalue::KeyOperation")]
        if not ops:
            return None
        for o in ops:
            f = dict(o.d[2])
            ctx.ob("entry:ns", par(f["namespace"], 2), w, "restored to the namespace %s" % show(f["namespace"])[:60])
            ctx.ob("entry:k", par(f["key"], 3), w, "restored as the key %s" % show(f["key"])[:60])
            s = [x for x in TT.walk(f["command"], 1) if x.k == "agg" and x.d[0].endswith("SetCommand")]
            ctx.ob("entry:set", len(s) == 1, w, "restored by %s" % show(f["command"])[:60])
            for x in s:
                g = dict(x.d[2])
                ctx.ob("entry:value", par(g["value"], 1, ("value",)), w, "the value restored is %s" % show(g["value"])[:60])
                ctx.ob("entry:expiration", par(g["expiration"], 1, ("expiration",)), w, "the expiration restored is %s" % show(g["expiration"])[:60])
                ctx.ob("entry:unconditional", TT.norm(g["check"]).k == "agg" and TT.norm(g["check"]).d[1] == "None", w, "the entry is restored only if %s" % show(g["check"])[:60])
                ctx.ob("entry:replaces-expiration", show(g["keep_existing_expiration"]) in ("0", "false"), w, "the expiration of a key that exists is kept")
        return [(True, res_ok()), (False, res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("entry:done", ps is True, ctx.where(b), "an entry is reported restored although it was not")
    proto.run(ctx, TT, b, "entry", {"set": ["execute_key_operation", "perform_kv_operation"]}, step, None, need=("set",), ret=ret, stop=lambda x: short(x.path) == "perform_kv_operation")


# ---- locations -------------------------------------------------------------------------------------------
METHODS = ("store", "list_schemas", "list_databases", "list_stored", "load")


def wrappers(ctx, TT):
    """every wrapper of a location passes on exactly its arguments"""
    n = 0
    for b in ctx.F.bodies.values():
        if b.kind == "closure" or not (b.path.endswith(tuple("::" + m for m in METHODS)) and ("as " + LOC in b.path or "as " + BL in b.path)):
            continue
        m = short(b.path)
        if b.path.startswith("<std::path::Path as"):
            continue
        n += 1

        def target(c, m=m, b=b):
            return short(c.path) == m and (BL in c.path or LOC in c.path or BL in c.fn.path or LOC in c.fn.path)

        def args(c, b=b):
            for i in range(b.argc):
                r, f = fwd.unwrap(TT.norm(c.arg(i)))
                t = TT.norm(c.arg(i))
                ok = r.k == "par" and r.d[1] == i + 1 or i == 0 and any(x.k == "par" and x.d[1] == 1 for x in TT.walk(t, 0))
                yield ok, "the location's %s is passed %s" % (m, show(t)[:60])
        fwd.forward(ctx, TT, b, "location:%s:%s" % (b.path.split(" as ")[0].strip("<"), m), (m,), target, args, True)
    ctx.floor("wrappers", n, 10)


def directory(ctx, TT):
    """the directory location"""
    T3 = ctx.terms(opaque=set(p for p in ctx.F.by_path if p.startswith(S + "backup::encode") or p.startswith(S + "backup::decode")))
    got = {}
    for m in METHODS:
        b = ctx.F.body("<std::path::Path as %s>::%s" % (BL, m))
        if b is None:
            ctx.fail("directory:%s" % m, "", "the directory location has no `%s`" % m)
            continue
        read_write(ctx, T3, b, m, got)
    if "store" in got and "load" in got:
        ctx.ob("directory:same-file", got["store"] == got["load"], "", "a file is written to %s but read from %s" % (got["store"][1][:120], got["load"][1][:120]))


def arg_shape(TT, b, t, at=()):
    """a term with the parameters of b replaced by their numbers"""
    t = TT.norm(t)

    def go(x, d=0):
        if d > 12:
            return "…"
        x = TT.norm(x)
        if x.k == "par":
            return "arg%d" % x.d[1]
        if x.k == "call":
            return (short(x.d[0]),) + tuple(go(y, d + 1) for y in x.d[1])
        if x.k == "fld":
            return (go(x.d[0], d + 1), "." + str(x.d[1]))
        if x.k == "agg":
            return (x.d[1],) + tuple(go(y, d + 1) for _, y in x.d[2])
        if x.k == "phi":
            return ("one of",) + tuple(sorted((go(y, d + 1) for y in x.d), key=str))
        if x.k == "clo":
            return "closure"
        return show(x)
    return go(t)


def read_write(ctx, TT, b, m, got):
    arg = {"store": (1, 2, 3, 4), "load": (1, 2, 3, 4), "list_stored": (1, 2, 3), "list_databases": (1, 2), "list_schemas": (1,)}[m]
    if m in ("store", "load"):
        def step(ps, l, c):
            w = c.where()
            if l == "dir":
                return [(ps.set(dir=True), res_ok()), (ps.set(bad=True), res_err())]
            p = TT.norm(c.arg(0))
            got[m] = (arg_shape(TT, b, p), show(p))
            if m == "store":
                o = fwd.unwrap(TT.norm(c.arg(1)))[0]
                ctx.ob("directory:object", o.k == "par" and o.d[1] == 6, w, "what is written is %s" % show(c.arg(1))[:60])
                ctx.ob("directory:folder", ps.dir is True, w, "the file is written without its directory having been created")
            used = {x.d[1] for x in TT.walk(p, 4) if x.k == "par" and x.d[0] == b.h}
            ctx.ob("directory:%s:path" % m, used == {1, 2, 3, 4, 5}, w, "the file's path depends on arguments %s only" % sorted(used))
            plain = [x for x in joined(TT, p) if x.k == "par" and x.d[1] == 5]
            ctx.ob("directory:%s:encoded" % m, not plain, w, "a name, which can be any string, is used as a file name as it is")
            return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("directory:%s:done" % m, ps.done is True and not ps.bad, ctx.where(b), "`%s` succeeds although %s" % (m, "it failed" if ps.bad else "no file was accessed"))
        proto.run(ctx, TT, b, "directory:" + m, {"dir": ["create_dir_all"], "file": ["std::fs::write", "std::fs::read"]}, step, c11.rec(("dir", "done", "bad")), need=("file",), ret=ret)
        return
    listing(ctx, TT, b, m)


def joined(TT, t):
    """the last component joined to a path"""
    out = []
    for a in alts(TT.norm(t)):
        if a.k == "call" and short(a.d[0]) in ("join", "push"):
            out += alts(TT.norm(a.d[1][1]))
    return out


def listing(ctx, TT, b, m):
    """every entry of the directory that is of the right kind is listed, by its (decoded) name"""
    kinds = {"list_schemas": "is_dir", "list_databases": "is_dir", "list_stored": "is_file"}[m]

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "dir":
            used = {x.d[1] for x in TT.walk(c.arg(0), 4) if x.k == "par" and x.d[0] == b.h}
            want = set(range(1, b.argc + 1))
            ctx.ob("directory:%s:path" % m, used == want, w, "the directory listed depends on arguments %s only" % sorted(used))
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "iter":
            if "ReadDir" not in c11.item(c) and "fs::" not in c11.item(c):
                return None
            ctx.ob("directory:%s:each" % m, ps.item is not False, w, "an entry of the directory is not listed")
            # an entry; an entry that failed; none
            return [(ps.set(item=False), {(): 1, (("v", 1), ("f", 0)): 0}), (ps.set(item=None, bad=True), {(): 1, (("v", 1), ("f", 0)): 1}), (ps.set(item=None, end=True), {(): 0})]
        if l == "err":
            return [(ps.set(bad=False), {})]            # what it is decides whether it is one
        if l == "kind":
            y = ps if n == kinds else ps.set(item=True)
            o = ps.set(item=True) if n == kinds else ps
            return [(y.set(kind=n == kinds), {(): 1}), (o, {(): 0})]
        if l == "name":
            return [(ps, res_ok()), (ps.set(item=True), res_err())]
        if l == "parse":
            return [(ps, res_ok()), (ps.set(item=True), res_err())]
        if l == "type":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "ne":
            ks = [a for i in (0, 1) for a in alts(TT.norm(c.arg(i))) if a.k == "str" and a.d[0] == "_kv"]
            if not ks or m != "list_databases":
                return None
            e = n == "eq"
            return [(ps.set(item=True), {(): int(e)}), (ps, {(): int(not e)})]
        if l == "push":
            if c11.targ(c).startswith("u8") or "Vec" not in c.path:
                return None
            t = c.arg(1)
            if m == "list_stored":
                d = [x for x in TT.walk(TT.norm(t), 2) if x.k == "call" and x.d[0].startswith(S) and "decode" in short(x.d[0])]
                ctx.ob("directory:decoded", bool(d) or encoded_is_not_used(ctx), w, "names are listed as their files are named: %s" % show(t)[:80])
            if n == "extend" and (c.ex.opval(c.st.env, c.fr, c.args[1]) or {}).get(()) != 1:
                return None
            return [(ps.set(item=True), {})]
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("directory:%s:kept" % m, ps.item is not False, ctx.where(b), "an entry of the directory is not listed")
            ctx.ob("directory:%s:failed" % m, not ps.bad, ctx.where(b), "a failure to list the directory is not reported")
    proto.run(ctx, TT, b, "directory:" + m, {"dir": ["std::fs::read_dir"], "iter": [proto.ITER], "kind": ["is_dir", "is_file"], "name": ["into_string"], "parse": ["parse_encoded"],
                                             "type": ["file_type"], "ne": ["ne", "eq"], "push": ["push", "extend"], "err": ["std::io::error::Error::kind", "core::io::error::Error::kind"]}, step, c11.rec(("item", "bad", "end", "kind")), need=("dir", "iter", "push"), ret=ret, kcap=32, nonempty=True,
              stop=lambda x: "parse_encoded" in x.path or "decode" in short(x.path) and x.path.startswith(S))


def encoded_is_not_used(ctx):
    return False


SEP = {47: "/", 92: "\\", 0: "NUL"}


def encode(ctx, TT):
    """characters that separate the parts of a path are never part of an encoded name"""
    fs = {}
    for m in ("store", "load"):
        b = ctx.F.body("<std::path::Path as %s>::%s" % (BL, m))
        for bl in b.blocks if b else ():
            if bl and bl[1][0] == "call" and bl[1][1][0] == "k":
                fn = bl[1][1][1]
                x = ctx.F.bodies.get(getattr(fn, "rh", None))
                if x is not None and x.path.startswith(S + "backup::") and x.argc == 1 and x.locals[0].s.endswith("String"):
                    fs[x.h] = x
    ctx.floor("encoders", len(fs), 1)
    for x in fs.values():
        pushed = [0]

        def step(ps, l, c, x=x):
            w = c.where()
            if l == "iter":
                return [(frozenset(), {(): 1}), (frozenset(), {(): 0})]
            if l == "push":
                t = TT.norm(c.arg(1))
                if not any(y.k == "elem" for y in TT.walk(t, 0)):
                    return [(ps, {})]
                pushed[0] += 1
                for v, n in SEP.items():
                    ctx.ob("encode:%s" % n, v in ps, w, "a character that can be %r becomes part of a file name as it is" % n)
                return [(ps, {})]
            return None

        def branch(ps, st, o, src, val, ex):
            if o[0] not in ("c", "m"):
                return ps
            t = TT.norm(ex.term(st, o))
            tt = st.fr.body.blocks[st.bb][1]
            if t.k == "bin" and t.d[0] in ("Eq", "Ne"):
                k = [a.d[0] for a in t.d[1] if a.k == "con"]
                if val is not None and k and any(y.k == "elem" for a in t.d[1] for y in TT.walk(a, 0)):
                    if bool(val) == (t.d[0] == "Ne"):
                        return ps | {k[0]}
                return ps
            if any(y.k == "elem" for y in TT.walk(t, 0)) and tt[0] == "switch" and t.k in ("fld", "elem"):
                vals = [v for v, _ in tt[2]]
                if val is None:
                    return ps | set(vals)
                return ps | (set(SEP) - {val})
            return ps
        proto.run(ctx, TT, x, "encode", {"iter": [proto.ITER], "push": ["alloc::string::String::push"]}, step, frozenset(), need=("iter", "push"), branch=branch, kcap=64)


# ---- the text of an id ------------------------------------------------------------------------------------
def ids(ctx, TT):
    F = ctx.F
    d = ctx.method(ID, "core::fmt::Display", "fmt")
    p = ctx.method(ID, "core::str::traits::FromStr", "from_str")
    if d is None or p is None:
        return
    # the marker parsed
    marks = set()
    for b in [p] + [x for x in F.bodies.values() if x.path.startswith(p.path + "::{closure")]:
        marks |= consts(b)
    marks = {m for m in marks if m in (36,)} or set()
    ctx.ob("id:marker", marks == {36}, ctx.where(p), "the marker of the hexadecimal form is not looked for when an id is parsed")
    plain = [0]

    def step(ps, l, c):
        if l == "plain":
            t = TT.norm(c.arg(1))
            if not any(x.k == "call" and short(x.d[0]) in ("from_utf8", "from_utf8_unchecked", "from_utf8_lossy") for x in TT.walk(t, 0)) and "utf8" not in show(t):
                return None
            plain[0] += 1
            ctx.ob("id:plain", ps, c.where(), "an id whose text contains `$` is written as it is, but would be read as hexadecimal")
            return [(ps, {})]
        if l == "all":
            cl = [x for x in TT.walk(c.arg(1), 0) if x.k == "clo"]
            ok = any(excludes(ctx, TT, F.bodies[x.x[0]], x, 1 if short(c.path) == "all" else 0) for x in cl)
            v = 1 if short(c.path) == "all" else 0
            return [(ps or ok, {(): v}), (ps, {(): 1 - v})]
        if l == "has":
            a = TT.norm(c.arg(1))
            if a.k == "con" and a.d[0] == 36 or a.k == "str" and a.d[0] == "$":
                return [(True, {(): 0}), (ps, {(): 1})]
            return None
        return None
    proto.run(ctx, TT, d, "id", {"plain": ["write_str"], "all": ["all", "any"], "has": ["contains"]}, step, False, need=("plain",))
    ctx.ob("id:plain-form", plain[0] > 0, ctx.where(d), "the plain form of an id was not found")


def consts(b):
    out = set()

    def op(o):
        if o[0] == "k" and getattr(o[1], "v", None) is not None:
            out.add(o[1].v)
    for bl in b.blocks:
        if bl is None:
            continue
        for _, rv, _ in bl[0]:
            for o in rv:
                if isinstance(o, tuple) and o and o[0] == "k":
                    op(o)
                elif isinstance(o, (list, tuple)):
                    for y in o:
                        if isinstance(y, tuple) and y and y[0] == "k":
                            op(y)
        t = bl[1]
        if t[0] == "switch":
            out |= {v for v, _ in t[2]}
        if t[0] == "call":
            for o in t[2]:
                op(o)
    return out


def excludes(ctx, TT, b, clo, want):
    """does the closure return `want` only for bytes other than the marker?"""
    res = []

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o)) if o[0] in ("c", "m") else None
        if t is not None and t.k == "bin" and t.d[0] in ("Eq", "Ne") and any(a.k == "con" and a.d[0] == 36 for a in t.d[1]) and val is not None:
            return ps if bool(val) == (t.d[0] == "Eq") else "not"
        tt = st.fr.body.blocks[st.bb][1]
        if t is not None and t.k in ("par", "fld") and tt[0] == "switch" and 36 in [v for v, _ in tt[2]]:
            return "not" if val != 36 else ps
        return ps

    def ret(ps, val, st, ex):
        v = val.get(())
        if v is None or v == want:
            t = TT.norm(TT.local(st.fr, 0, ()))
            cmp_ = [x for a in alts(t) for x in TT.walk(a, 0) if x.k == "bin" and x.d[0] == ("Ne" if want else "Eq") and any(y.k == "con" and y.d[0] == 36 for y in x.d[1])]
            res.append(ps == "not" or bool(cmp_) and v is None)
    proto.run(ctx, TT, b, "id:all", {}, lambda ps, l, c: None, "any", branch=branch, ret=ret, frame=frame_of(TT, b, clo))
    return bool(res) and all(res)
