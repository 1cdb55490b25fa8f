"""C20: databases are created, opened, listed and deleted by name, consistently."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c19
import fwd
import proto

EXPLAIN = ("Creating, deleting, opening and listing databases, and the loading of the list when a storage is opened, are explored over compiler MIR "
           "on every path, with the look-ups, storage accesses and comparisons they make succeeding and failing; locks are followed from where "
           "they are taken to where they are released. The conditions under which a name is accepted are collected path by path, and compared "
           "with the files the storage itself keeps, which are enumerated from the source.")
RULE = ("A database is created only under an accepted name, with a registered schema, and only if under the same lock the name was found unused; its "
        "record and its entry in the list say the same. An existing one makes creation fail unless it was asked for only if needed. Only a listed "
        "name is deleted: its open handle, its folder, what is remembered about it, its entry and its record. A database is opened only if "
        "listed, with the schema it is listed with, which is the one asked for; all handles of a name share one context, made for "
        "the folder of that name. Accepted names are not empty, contain no separator, and are not those of the storage's own files.")
ASSUME = ["C13 (the view of databases by name has one entry per name).", "A database name differing only in case is a different folder."]
S = "bonsaidb_local::storage::"
SI = S + "StorageInstance"
SC = "bonsaidb_core::connection::StorageConnection"
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
RW = "lock_api::rwlock::RwLock::<R, T>::"
MX = "lock_api::mutex::Mutex::<R, T>::"
ADMINDB = "bonsaidb_core::admin::database::Database"


NARROW = ("with_key", "with_keys", "with_key_range", "limit", "with_key_prefix")      # what leaves entries of a view out


def field(TT, t, name):
    t = TT.norm(t)
    return any(a.k == "fld" and a.d[1] == name for a in alts(t))


def par(TT, b, t, i):
    """parameter i itself (converted at most)"""
    out = []
    for a in alts(TT.norm(t)):
        r, f = fwd.unwrap(a)
        out.append(r.k == "par" and r.d[0] == b.h and r.d[1] == i and not [x for x in f if x != "*"])
    return bool(out) and all(out)


def guards(place_ty, name):
    s = place_ty.s if place_ty is not None else ""
    return name in s


def is_guard(ty, content):
    s = ty.s if ty is not None else ""
    return ("Guard" in s) and content in s and not s.startswith("&")


LIST = "alloc::string::String, bonsaidb_core::schema::names::SchemaName"     # what the list of databases maps


def released(st, place):
    t = st.fr.body.locals[place[0]] if place else None
    return t.s if t is not None and len(place) == 1 else ""


def check(ctx):
    views = {"bonsaidb_core::connection::%sView::<'a, Cn, V, Key>::%s" % (a, m) for a in ("", "Async") for m in NARROW}
    TT = ctx.terms(opaque={S + "Storage::validate_name", SI + "::open_roots", SI + "::database_without_schema"} | views)
    create(ctx, TT)
    delete(ctx, TT)
    opening(ctx, TT)
    context(ctx, TT)
    opener(ctx, TT)
    listing(ctx, TT)
    loading(ctx, TT)
    names(ctx, TT)
    view(ctx, TT)
    writers(ctx, TT)


def drop_list(ps, st, place, ty, line, ex=None):
    s = ty.s if ty is not None else ""
    if "RwLock" in s and "Guard" in s and LIST in s and "Write" in s:
        return ps.set(lock=False, absent=None if ps.absent is True else ps.absent)
    return ps


STOP = ("admin", "database", "open_roots", "validate_name", "push", "delete", "query", "with_key", "collection", "view", "delete_directory", "tasks", "open")


def create(ctx, TT):
    b = ctx.method(SI, SC, "create_database_with_schema")
    if b is None:
        return

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "lock":
            if field(TT, c.arg(0), "available_databases"):
                return [(ps.set(lock=n == "write"), {})]
            return None
        if l == "valid":
            ctx.ob("create:name", par(TT, b, c.arg(0), 2), w, "the name that is checked is %s" % show(c.arg(0))[:60])
            return [(ps.set(valid=True), res_ok()), (ps, res_err())]
        if l == "has":
            if field(TT, c.arg(0), "schemas"):
                ctx.ob("create:schema-known", par(TT, b, c.arg(1), 3), w, "the schema looked for is %s" % show(c.arg(1))[:60])
                return [(ps.set(schema=True), {(): 1}), (ps, {(): 0})]
            if field(TT, c.arg(0), "available_databases"):
                ctx.ob("create:looked-up", par(TT, b, c.arg(1), 2), w, "the name looked for is %s" % show(c.arg(1))[:60])
                return [(ps.set(absent=False), {(): 1}), (ps.set(absent=True if ps.lock else None), {(): 0})]
            return None
        if l == "record":
            r = [x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "agg" and x.d[0] == ADMINDB]
            ctx.ob("create:record", len(r) == 1 and par(TT, b, dict(r[0].d[2])["name"], 2) and par(TT, b, dict(r[0].d[2])["schema"], 3), w, "the record made is %s" % show(c.arg(1))[:80])
            ctx.ob("create:unused", ps.absent is True, w, "a database is recorded without its name having been found unused under the lock it is added under")
            ctx.ob("create:valid", ps.valid is True, w, "a database is recorded under a name that was not checked")
            ctx.ob("create:schema", ps.schema is True, w, "a database is recorded with a schema that was not found registered")
            return [(ps.set(rec=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "add":
            if not field(TT, c.arg(0), "available_databases"):
                return None
            ctx.ob("create:entry", par(TT, b, c.arg(1), 2) and par(TT, b, c.arg(2), 3), w, "the entry made is %s: %s" % (show(c.arg(1))[:40], show(c.arg(2))[:40]))
            ctx.ob("create:recorded-first", ps.rec is True and not ps.bad, w, "a database becomes available although its record was not stored")
            return [(ps.set(added=True), {})]
        return None

    def branch(ps, st, o, src, val, ex):
        if o[0] in ("c", "m") and val is not None and par(TT, b, ex.term(st, o), 4):
            return ps.set(need=bool(val))
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            w = ctx.where(b)
            ctx.ob("create:failed", not ps.bad, w, "creating a database succeeds although its record was not stored")
            if ps.absent is False and not ps.rec:
                ctx.ob("create:taken", ps.need is True, w, "creating a database succeeds although the name is taken and it was not asked for only if needed")
            else:
                ctx.ob("create:done", ps.rec and ps.added, w, "creating a database succeeds without its record and entry having been made")
    proto.run(ctx, TT, b, "create", {"lock": [RW + "write", RW + "read"], "valid": [S + "Storage::validate_name"], "has": [HM + "contains_key", HM + "get"], "record": ["push", "insert", "push_into", "insert_into"],
                                     "add": [HM + "insert"]}, step, c11.rec(("lock", "valid", "schema", "absent", "rec", "added", "bad", "need")), need=("lock", "valid", "has", "record", "add"), ret=ret,
              branch=branch, drop=drop_list, stop=lambda x: short(x.path) in STOP)


def delete(ctx, TT):
    b = ctx.method(SI, SC, "delete_database")
    if b is None:
        return

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "lock":
            if field(TT, c.arg(0), "available_databases"):
                return [(ps.set(lock=n == "write"), {})]
            return None
        if l == "has":
            if not field(TT, c.arg(0), "available_databases"):
                return None
            ctx.ob("delete:looked-up", par(TT, b, c.arg(1), 2), w, "the name looked for is %s" % show(c.arg(1))[:60])
            return [(ps.set(there=True if ps.lock else None, had=bool(ps.lock)), {(): 1}), (ps.set(there=False), {(): 0})]
        if l == "remove":
            if field(TT, c.arg(0), "open_roots"):
                ctx.ob("delete:handle", par(TT, b, c.arg(1), 2), w, "the handle closed is that of %s" % show(c.arg(1))[:60])
                return [(ps.set(closed=True), {})]
            if field(TT, c.arg(0), "available_databases"):
                ctx.ob("delete:entry", par(TT, b, c.arg(1), 2), w, "the entry removed is that of %s" % show(c.arg(1))[:60])
                had = ps.there if ps.there is not None else None
                outs = [(ps.set(gone=True, there=True, had=True), {(): 1}), (ps.set(gone=True, there=False), {(): 0})]
                return outs if had is None else [outs[0 if had else 1]]
            return None
        if l == "folder":
            p = TT.norm(c.arg(len(c.args) - 1))
            ok = any(x.k == "call" and short(x.d[0]) == "join" and field(TT, x.d[1][0], "path") and par(TT, b, x.d[1][1], 2) for x in alts(p))
            ctx.ob("delete:folder", ok, w, "the folder deleted is %s" % show(p)[:80])
            ctx.ob("delete:listed", ps.there is True, w, "a folder is deleted without a database of its name having been found")
            ctx.ob("delete:closed", ps.closed is True, w, "a database's folder is deleted while its handle is still kept for others to use")
            return [(ps.set(dir=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "exists":
            return [(ps, {(): 1}), (ps.set(dir=True), {(): 0})]
        if l == "forget":
            ctx.ob("delete:forget", par(TT, b, c.arg(1), 2), w, "what is forgotten is about %s" % show(c.arg(1))[:60])
            return [(ps.set(forgot=True), {})]
        if l == "query":
            ok = any(par(TT, b, x, 2) for x in TT.walk(TT.norm(c.arg(0)), 1))
            ctx.ob("delete:which", ok, w, "the record looked for is %s" % show(c.arg(0))[:80])
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "first":
            return [(ps, {(): 1}), (ps.set(norec=True), {(): 0})]
        if l == "record":
            a = c.arg(1)
            src = [x for x in TT.walk(TT.norm(a), 0) if x.k == "fld" and x.d[1] in ("source", "id", "header")]
            ctx.ob("delete:record", bool(src), w, "the record deleted is %s" % show(a)[:80])
            return [(ps.set(rec=True), res_ok()), (ps.set(bad=True), res_err())]
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            w = ctx.where(b)
            for k, f, d in (("closed", "closed", "its handle having been closed"), ("folder", "dir", "its folder having been deleted"), ("forgotten", "forgot", "what is remembered about it having been forgotten"),
                            ("unlisted", "gone", "it having been removed from the list"), ("unrecorded", "rec", "its record having been deleted")):
                ctx.ob("delete:%s" % k, getattr(ps, f) is True, w, "a database is reported deleted without %s" % d)
            ctx.ob("delete:failed", not ps.bad, w, "a database is reported deleted although a step failed")
            ctx.ob("delete:was-listed", ps.had is True, w, "a database that is not listed is reported deleted")
    proto.run(ctx, TT, b, "delete", {"lock": [RW + "write", RW + "read"], "has": [HM + "contains_key", HM + "get"], "remove": [HM + "remove"], "folder": ["delete_directory", "remove_dir_all"], "exists": ["exists"],
                                     "forget": ["forget_database"], "query": ["query", "query_with_collection_docs", "query_with_docs"], "first": ["core::slice::<impl [T]>::first", "core::slice::<impl [T]>::get", "pop"],
                                     "record": ["bonsaidb_core::connection::lowlevel::LowLevelConnection::delete", "delete", "bonsaidb_core::connection::Connection::delete"]}, step,
              c11.rec(("lock", "there", "absent", "closed", "dir", "forgot", "gone", "rec", "bad", "norec", "had")),
              need=("lock", "has", "remove", "folder", "forget", "query", "record"), ret=ret, drop=drop_there, stop=lambda x: short(x.path) in STOP + ("forget_database",))


def drop_there(ps, st, place, ty, line, ex=None):
    s = ty.s if ty is not None else ""
    if "RwLock" in s and "Guard" in s and LIST in s and "Write" in s:
        return ps.set(lock=False, there=None)
    return ps


def opening(ctx, TT):
    b = ctx.need(SI + "::database_without_schema")
    if b is None:
        return
    T2 = ctx.terms()

    def stored(t):
        for a in alts(T2.norm(t)):
            r, f = fwd.unwrap(a)
            if not (r.k == "call" and short(r.d[0]) == "get" and field(T2, r.d[1][0], "available_databases") and par(T2, b, r.d[1][1], 2)):
                return False
        return True

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "get":
            if field(T2, c.arg(0), "available_databases"):
                ctx.ob("open:looked-up", par(T2, b, c.arg(1), 2), w, "the name looked for is %s" % show(c.arg(1))[:60])
                return [(ps.set(there=True), {(): 1}), (ps, {(): 0})]
            if field(T2, c.arg(0), "schemas"):
                ctx.ob("open:stored-schema", stored(c.arg(1)), w, "the schema used is %s" % show(c.arg(1))[:80])
                return [(ps.set(schema=True), {(): 1}), (ps, {(): 0})]
            return None
        if l == "eq":
            x, y = c.arg(0), c.arg(1)
            if not (stored(x) and par(T2, b, y, 4) or stored(y) and par(T2, b, x, 4)):
                return None
            e = n == "eq"
            return [(ps.set(same=True), {(): int(e)}), (ps.set(same=False), {(): int(not e)})]
        ctx.ob("open:listed", ps.there is True, w, "a database is opened without having been found in the list")
        ctx.ob("open:registered", ps.schema is True, w, "a database is opened without its schema having been found registered")
        ctx.ob("open:expected", ps.same is True or ps.any is True, w, "a database is opened although its schema was not found to be the expected one")
        ctx.ob("open:name", par(T2, b, c.arg(1), 2), w, "the database opened is %s" % show(c.arg(1))[:60])
        ctx.ob("open:storage", any(x.k == "par" and x.d[1] in (1, 3) for x in T2.walk(c.arg(2), 2)), w, "it is opened for %s" % show(c.arg(2))[:60])
        return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

    def branch(ps, st, o, src, val, ex):
        if src is not None and val == 0 and par(T2, b, ex.term(st, ("c", src)), 4):
            return ps.set(any=True)
        if o[0] in ("c", "m") and val is not None:
            t = T2.norm(ex.term(st, o))
            if t.k == "call" and short(t.d[0]) in ("is_none", "is_some") and par(T2, b, t.d[1][0], 4) and bool(val) == (short(t.d[0]) == "is_none"):
                return ps.set(any=True)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("open:done", ps.done and not ps.bad, ctx.where(b), "opening a database succeeds without it having been opened")
    proto.run(ctx, T2, b, "open", {"get": [HM + "get", HM + "get_mut"], "eq": ["eq", "ne"], "open": ["bonsaidb_local::storage::DatabaseOpener::open"]}, step, c11.rec(("there", "schema", "same", "any", "done", "bad")),
              need=("get", "eq", "open"), ret=ret, branch=branch)
    m = ctx.method(SI, SC, "database")
    if m is not None:
        def st2(ps, l, c):
            w = c.where()
            e = [x for x in TT.walk(TT.norm(c.arg(3)), 1) if x.k == "call" and short(x.d[0]) == "schema_name"]
            ctx.ob("open:schema-of-type", bool(e) and not (TT.norm(c.arg(3)).k == "agg" and TT.norm(c.arg(3)).d[1] == "None"), w, "the schema expected is %s" % show(c.arg(3))[:60])
            ctx.ob("open:that-name", par(TT, m, c.arg(1), 2), w, "the database opened is %s" % show(c.arg(1))[:60])
            return [(True, res_ok()), (True, res_err())]
        proto.run(ctx, TT, m, "open:typed", {"open": [SI + "::database_without_schema"]}, st2, False, need=("open",))


def context(ctx, TT):
    b = ctx.need(SI + "::open_roots")
    if b is None:
        return
    T2 = ctx.terms(opaque={"bonsaidb_local::database::Context::new"})

    def step(ps, l, c):
        w = c.where()
        if l == "lock":
            return [(ps.set(lock=True), {})] if field(T2, c.arg(0), "open_roots") else None
        if l == "get":
            if not field(T2, c.arg(0), "open_roots"):
                return None
            ctx.ob("context:looked-up", par(T2, b, c.arg(1), 2), w, "the handle looked for is that of %s" % show(c.arg(1))[:60])
            return [(ps.set(known=True), {(): 1}), (ps.set(known=False if ps.lock else None), {(): 0})]
        if l == "open":
            ctx.ob("context:once", ps.known is False, w, "a folder is opened although a handle for it may exist, or could be made meanwhile")
            return [(ps.set(opened=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "config":
            j = [x for x in T2.walk(c.arg(0), 1) if x.k == "call" and short(x.d[0]) == "join"]
            ctx.ob("context:folder", len(j) >= 1 and all(field(T2, x.d[1][0], "path") and par(T2, b, x.d[1][1], 2) for x in j), w, "the folder opened is %s" % show(c.arg(0))[:80])
            return [(ps, {})]
        if l == "keep":
            if not field(T2, c.arg(0), "open_roots"):
                return None
            ctx.ob("context:kept-as", par(T2, b, c.arg(1), 2), w, "the handle is kept as that of %s" % show(c.arg(1))[:60])
            ctx.ob("context:kept", any(x.k == "call" and x.d[0].endswith("Context::new") for x in T2.walk(T2.norm(c.arg(2)), 0)), w, "what is kept is %s" % show(c.arg(2))[:80])
            ctx.ob("context:kept-locked", ps.known is False, w, "the handle is kept after others could have made one")
            return [(ps.set(kept=True), {})]
        return None

    def drop(ps, st, place, ty, line, ex=None):
        s = ty.s if ty is not None else ""
        if "MutexGuard" in s and "bonsaidb_local::database::Context" in s:
            return ps.set(lock=False, known=None)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("context:shared", ps.kept is True or not ps.opened, ctx.where(b), "a handle is returned that others of the same name will not share")
            t = T2.norm(T2.local(st.fr, 0, ()))
    proto.run(ctx, T2, b, "context", {"lock": [MX + "lock"], "get": [HM + "get", HM + "contains_key"], "open": ["nebari::roots::Config::<M>::open"], "keep": [HM + "insert"], "config": ["nebari::roots::Config::new", "nebari::roots::Config::<M>::new"]}, step,
              c11.rec(("lock", "known", "opened", "kept", "bad")), need=("lock", "get", "open", "keep", "config"), ret=ret, drop=drop, stop=lambda x: x.path.endswith("Context::new"))


def opener(ctx, TT):
    bs = [b for b in ctx.F.bodies.values() if b.kind != "closure" and b.path.endswith("as bonsaidb_local::storage::DatabaseOpener>::open")]
    ctx.floor("openers", len(bs), 1)
    for b in bs:
        def step(ps, l, c):
            w = c.where()
            if l == "roots":
                ctx.ob("opener:folder", par(TT, b, c.arg(1), 2), w, "the context is that of %s" % show(c.arg(1))[:60])
                return [(ps, res_ok()), (ps, res_err())]
            ctx.ob("opener:name", par(TT, b, c.arg(0), 2), w, "the database is opened as %s" % show(c.arg(0))[:60])
            ctx.ob("opener:context", any(x.k == "call" and short(x.d[0]) == "open_roots" for x in TT.walk(TT.norm(c.arg(1)), 0)), w, "its context is %s" % show(c.arg(1))[:60])
            ctx.ob("opener:storage", any(x.k == "par" and x.d[1] == 3 for x in TT.walk(TT.norm(c.arg(2)), 0)), w, "it is opened for %s" % show(c.arg(2))[:60])
            return [(True, res_ok()), (ps, res_err())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("opener:done", ps is True, ctx.where(b), "no database is opened")
        proto.run(ctx, TT, b, "opener", {"roots": [SI + "::open_roots"], "new": ["bonsaidb_local::database::Database::new"]}, step, None, need=("roots", "new"), ret=ret, stop=lambda x: short(x.path) in ("open_roots", "new"))


def listing(ctx, TT):
    b = ctx.method(SI, SC, "list_databases")
    if b is None:
        return
    made = []
    for x in [b] + [y for y in ctx.F.bodies.values() if y.path.startswith(b.path + "::{closure")]:
        for bl in x.blocks:
            for p, rv, ln in (bl[0] if bl else ()):
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] == "bonsaidb_core::connection::Database":
                    made.append((x, rv, ln))
    ctx.ob("list:made", len(made) >= 1, ctx.where(b), "no entries are listed")
    for x, rv, ln in made:
        t = [TT.norm(TT.op(TT.frame(x), o)) for o in rv[6]]
        f = dict(zip(rv[5], t))
        n, s = fwd.unwrap(f["name"])[1], fwd.unwrap(f["schema"])[1]
        n, s = [y for y in n if y != "*"], [y for y in s if y != "*"]
        ctx.ob("list:entry", n[-1:] == ["0"] and s[-1:] == ["1"], "%s:%d" % (x.file, ln), "an entry is listed as %s: %s" % (show(f["name"])[:50], show(f["schema"])[:50]))

    def ret(ps, val, st, ex):
        if val.get(()) in (None, 0):
            t = TT.norm(TT.local(st.fr, 0, ()))
            src = any(x.k == "fld" and x.d[1] == "available_databases" for x in TT.walk(t, 1))
            sel = c19.selecting(TT, t)
            ctx.ob("list:all", not sel, ctx.where(b), "not all databases are listed: %s" % sel)
            res.append(src)
    res = []
    proto.run(ctx, TT, b, "list", {"read": [RW + "read"]}, lambda ps, l, c: [(True, {})] if field(TT, c.arg(0), "available_databases") else None, False, need=("read",), ret=ret)


def loading(ctx, TT):
    b = ctx.need(S + "Storage::cache_available_databases")
    if b is None:
        return

    def step(ps, l, c):
        w = c.where()
        if l == "query":
            vs = [a.s for a in c.fn.args if hasattr(a, "s")]
            ctx.ob("load:view", any(v.endswith("admin::database::ByName") for v in vs), w, "the view queried is %s" % vs)
            t = TT.norm(c.arg(0))
            lim = [short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) in NARROW]
            ctx.ob("load:all", not lim, w, "only some databases are loaded (%s)" % lim)
            return [(ps.set(read=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "lock":
            return [(ps, {})] if field(TT, c.arg(0), "available_databases") else None
        return None

    def assign(ps, st, place, rv, line, ex):
        ty = st.fr.body.locals[place[0]].s
        if len(place) == 2 and place[1][0] == "*" and LIST in ty and st.fr.body.h == b.h and rv[0] == "use":
            t = TT.norm(TT.op(st.fr, rv[1]))
            sel = c19.selecting(TT, t)
            ctx.ob("load:each", not sel, ctx.where(b, line), "not all databases are loaded: %s" % sel)
            return ps.set(set_=True)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("load:done", ps.read and not ps.bad and ps.set_, ctx.where(b), "the list of databases is not loaded, but no error is reported")
    proto.run(ctx, TT, b, "load", {"query": ["query"], "lock": [RW + "write"]}, step, c11.rec(("read", "bad", "set_")), need=("query", "lock"), ret=ret, assign=assign, stop=lambda x: short(x.path) in STOP)
    # the pairs that are loaded
    for x in [y for y in ctx.F.bodies.values() if y.path.startswith(b.path + "::{closure")]:
        t = TT.norm(TT.local(TT.frame(x), 0, ()))
        for a in alts(t):
            if a.k == "agg" and len(a.d[2]) == 2:
                p = [[y for y in fwd.unwrap(TT.norm(v))[1] if y != "*"][-1:] for _, v in a.d[2]]
                ctx.ob("load:pair", p == [["key"], ["value"]], ctx.where(x), "an entry is loaded as %s" % show(a)[:80])
    # the loading happens before anyone can use the storage
    o = ctx.F.find("storage::Storage::open")
    o = [x for x in o if x.kind != "closure"]
    ctx.floor("open", len(o), 1)
    for x in o:
        def st2(ps, l, c):
            if l == "load":
                return [(True, res_ok()), (None, res_err())]
            return None

        def ret2(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("load:opened", ps is True, ctx.where(x), "a storage is opened without its list of databases having been loaded")
        proto.run(ctx, TT, x, "load:open", {"load": [S + "Storage::cache_available_databases"]}, st2, None, need=("load",), ret=ret2, stop=lambda y: short(y.path) == "cache_available_databases")


# ---- names ------------------------------------------------------------------------------------------------
def own_files(ctx, TT):
    """names of what the storage keeps in its folder"""
    out = {}
    for b in ctx.F.bodies.values():
        if not (b.path.startswith("bonsaidb_local::storage::") or b.path.startswith("bonsaidb_local::vault::") or "bonsaidb_local::storage::" in b.path):
            continue
        if "backup" in b.path or "cli" in b.path or "test" in b.path:
            continue
        for bl in b.blocks:
            if bl and bl[1][0] == "call" and bl[1][1][0] == "k" and getattr(bl[1][1][1], "rpath", "") == "std::path::Path::join":
                a = bl[1][2][1]
                if a[0] in ("k", "c", "m"):
                    t = TT.norm(TT.op(TT.frame(b), a))
                    for y in alts(t):
                        if y.k == "str":
                            out[y.d[0]] = "%s:%d" % (b.file, bl[1][5])
    return out


def names(ctx, TT):
    b = ctx.need(S + "Storage::validate_name")
    if b is None:
        return
    T2 = ctx.terms()
    own = own_files(ctx, T2)
    ctx.floor("own files", len(own), 4)
    N = ("some", "chars", "pos", "good", "not_")

    def strs(t):
        return frozenset(x.d[0] for x in T2.walk(T2.norm(t), 1) if x.k == "str")

    def characters(t):
        """the characters of the name, one after the other"""
        t = T2.norm(t)
        return any(x.k == "call" and short(x.d[0]) in ("chars", "bytes", "char_indices") and par(T2, b, x.d[1][0], 1) for x in T2.walk(t, 0))

    def indexed(t):
        return any(x.k == "call" and short(x.d[0]) in ("enumerate", "char_indices") for x in T2.walk(T2.norm(t), 0))

    def position(t):
        """which part of which item: 'i' its position, 'c' the character"""
        r, f = fwd.unwrap(t)
        f = [y for y in f if y != "*"]
        if not characters(r):
            return None
        if not indexed(r):
            return "c"
        return {"0": "i", "1": "c"}.get(f[-1] if f else None)

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "empty":
            if not par(T2, b, c.arg(0), 1):
                return None
            return [(ps.set(some=False), {(): 1}), (ps.set(some=True), {(): 0})]
        if l == "quant":
            t = c.arg(0)
            if characters(t):
                k = [x for x in T2.walk(c.arg(1), 0) if x.k == "clo"]
                sel = [x for x in c19.selecting(T2, t)]
                # what was taken before has been looked at by itself
                pos = {None: None, "first": False, "rest": False}[ps.pos]
                ok = bool(k) and not sel and ps.good is not False and all(accepts(ctx, T2, x, 1 if n == "all" else 0, indexed(t), pos) for x in k)
                v = int(n == "all")
                return [(ps.set(chars=ps.chars or (ok and (ps.pos is None or ps.good is True))), {(): v}), (ps, {(): 1 - v})]
            s = strs(t)
            if s:
                v = int(n == "all")
                good = ps.set(not_=ps.not_ | s)
                return [(good, {(): v}), (ps, {(): 1 - v})]
            return None
        if l == "eq":
            for x, y in ((0, 1), (1, 0)):
                if par(T2, b, c.arg(x), 1):
                    s = strs(c.arg(y))
                    ne = n == "ne"
                    return [(ps.set(not_=ps.not_ | s), {(): int(ne)}), (ps, {(): int(not ne)})]
            return None
        if l == "has":
            if par(T2, b, c.arg(1), 1):
                return [(ps.set(not_=ps.not_ | strs(c.arg(0))), {(): 0}), (ps, {(): 1})]
            return None
        if l == "iter":
            t = c.arg(0)
            if not characters(t):
                return None
            if c19.selecting(T2, t):
                ps = ps.set(chars=False)
            if ps.pos is not None and ps.good is not True:
                ps = ps.set(chars=False)            # one was passed over
            return [(ps.set(pos="first" if ps.pos is None else "rest", good=None, some=True), {(): 1}),
                    (ps.set(chars=ps.chars is not False, some=ps.some if ps.pos is None else True), {(): 0})]
        if l == "alnum":
            return [(ps.set(good=True) if ps.pos else ps, {(): 1}), (ps, {(): 0})]
        return None

    def branch(ps, st, o, src, val, ex):
        if o[0] not in ("c", "m") or ps.pos is None or ps.good:
            return ps
        r = compared(T2, ex.term(st, o), val, position)
        if r is None:
            return ps
        if r[0] == "c" and (r[1] == 95 and ps.pos == "first" or r[1] in (45, 46) and ps.pos == "rest"):
            return ps.set(good=True)
        if r[0] == "i":
            return None if r[1] != (ps.pos == "first") else ps      # the position is that of the item taken
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            w = ctx.where(b)
            ctx.ob("name:empty", ps.some is True, w, "an empty name is accepted: its database would be the storage's folder itself")
            ctx.ob("name:characters", ps.chars is True, w, "a name is accepted without all of its characters having been checked")
            for n, where in sorted(own.items()):
                ctx.ob("name:reserved:%s" % n, n in ps.not_, w, "the name `%s` is accepted, which the storage uses in its folder (%s)" % (n, where))
    proto.run(ctx, T2, b, "name", {"empty": ["is_empty"], "quant": ["all", "any"], "eq": ["eq", "ne", "eq_ignore_ascii_case"], "has": ["contains"], "iter": [proto.ITER], "alnum": ["is_ascii_alphanumeric"]}, step,
              c11.rec(N, not_=frozenset()), ret=ret, branch=branch, kcap=64, quiet=("eq", "alnum"))


def compared(TT, t, val, position):
    """what a branch says of a character: ('c', which it is) or ('i', whether it is the first)"""
    t = TT.norm(t)
    if t.k == "bin" and val is not None:
        k = [a.d[0] for a in t.d[1] if a.k == "con"]
        v = [a for a in t.d[1] if a.k != "con"]
        if len(k) != 1 or len(v) != 1:
            return None
        op = t.d[0]
        if t.d[1][0].k == "con":
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        p = position(v[0])
        if p == "i":
            first = {("Eq", 0): True, ("Ne", 0): False, ("Gt", 0): False, ("Lt", 1): True, ("Ge", 1): False, ("Le", 0): True}.get((op, k[0]))
            return None if first is None else ("i", first if val else not first)
        if p == "c" and op in ("Eq", "Ne") and bool(val) == (op == "Eq"):
            return ("c", k[0])
        return None
    if t.k in ("fld", "par", "elem", "call"):
        p = position(t)
        if p == "i":
            return ("i", val == 0) if val in (0, None) else ("i", False)
        if p == "c" and val is not None:
            return ("c", val)
    return None


def accepts(ctx, TT, clo, want, indexed, first=None):
    """the closure lets through only letters and digits, `_` first, and `.` and `-` not first"""
    b = ctx.F.bodies[clo.x[0]]
    res = []

    def position(t):
        f = [y for y in fwd.unwrap(t)[1] if y != "*"]
        if not indexed:
            return "c"
        return {"0": "i", "1": "c"}.get(f[-1] if f else None)

    def step(ps, l, c):
        return [(ps.set(al=True), {(): 1}), (ps.set(al=False), {(): 0})]

    def branch(ps, st, o, src, val, ex):
        if o[0] not in ("c", "m"):
            return ps
        tt = st.fr.body.blocks[st.bb][1]
        t = TT.norm(ex.term(st, o))
        if t.k != "bin" and (tt[0] != "switch" or t.k not in ("fld", "par", "elem")):
            return ps
        if t.k != "bin" and val is None and position(t) == "i" and [v for v, _ in tt[2]] != [0]:
            return ps
        r = compared(TT, t, val, position)
        if r is None:
            return ps
        return ps.set(first=r[1]) if r[0] == "i" else ps.set(ch=r[1])

    def assign(ps, st, place, rv, line, ex):
        if place == (0,) and st.fr.body.h == b.h:
            if rv[0] == "bin" and rv[1] == "Eq":
                ts = [TT.norm(TT.op(st.fr, o)) for o in rv[2:4]]
                k = [t.d[0] for t in ts if t.k == "con"]
                v = [t for t in ts if t.k != "con"]
                if len(k) == 1 and len(v) == 1 and position(v[0]) == "c":
                    return ps.set(last=k[0])
            return ps.set(last=None)
        return ps

    def ok(ps):
        if ps.al:
            return True
        at = ps.first if ps.first is not None else first
        if ps.ch == 95:
            return at is True
        return ps.ch in (45, 46) and at is False

    def ret(ps, val, st, ex):
        v = val.get(())
        if v is None:
            # the outcome of the last comparison is returned as it is
            res.append(ps.last is not None and (not want or ok(ps.set(ch=ps.last)) or False))
        elif v == want:
            res.append(ok(ps))
    proto.run(ctx, TT, b, "name:closure", {"alnum": ["is_ascii_alphanumeric"]}, step, c11.rec(("al", "first", "ch", "last")), assign=assign, branch=branch, ret=ret, frame=c19.frame_of(TT, b, clo), kcap=64)
    return bool(res) and all(res)


def view(ctx, TT):
    """the view of databases by name emits the name and schema of each"""
    b = ctx.F.method("bonsaidb_core::admin::database::ByName", "bonsaidb_core::schema::view::CollectionMapReduce", "map") or ctx.F.method("bonsaidb_core::admin::database::ByName", "bonsaidb_core::schema::view::MapReduce", "map") \
        or next((x for x in ctx.F.bodies.values() if "admin::database::ByName as" in x.path and x.path.endswith("::map")), None)
    if b is None:
        ctx.fail("view:map", "", "the view of databases by name has no map function")
        return

    def step(ps, l, c):
        a = [[y for y in fwd.unwrap(TT.norm(c.arg(i)))[1] if y != "*"][-1:] for i in (1, 2)]
        ctx.ob("view:entry", a == [["name"], ["schema"]], c.where(), "a database is listed as %s: %s" % (show(c.arg(1))[:40], show(c.arg(2))[:40]))
        return [(ps, res_ok()), (ps, res_err())]
    proto.run(ctx, TT, b, "view", {"emit": ["emit_key_and_value"]}, step, 0, need=("emit",))


def writers(ctx, TT):
    """nothing else changes the list of databases, or the handles kept for them"""
    ok = {"available_databases": ("create_database_with_schema", "delete_database", "cache_available_databases"), "open_roots": ("open_roots", "delete_database")}
    n = 0
    for b in ctx.F.bodies.values():
        if not b.path.startswith(("bonsaidb_local::", "<bonsaidb_local::")):
            continue
        for bl in b.blocks:
            if not bl or bl[1][0] != "call" or bl[1][1][0] != "k":
                continue
            p = getattr(bl[1][1][1], "rpath", "")
            for f, lock in (("available_databases", RW + "write"), ("open_roots", MX + "lock")):
                if p == lock and field(TT, TT.op(TT.frame(b), bl[1][2][0]), f):
                    n += 1
                    root = b.path.split("::{closure")[0]
                    callers = {short(root)}
                    ctx.ob("writers:%s" % f, bool(callers & set(ok[f])) or only_from(ctx, root, ok[f]), "%s:%d" % (b.file, bl[1][5]), "`%s` is changed by %s" % (f, short(root)))
    ctx.floor("writers", n, 5)


def only_from(ctx, path, roots, depth=0):
    """is the function called only from these (a helper of theirs)?"""
    if depth > 4:
        return False
    hs = {b.h for b in ctx.F.bodies.values() if b.path == path}
    callers = set()
    for b in ctx.F.bodies.values():
        for bl in b.blocks:
            if bl and bl[1][0] == "call" and bl[1][1][0] == "k" and getattr(bl[1][1][1], "rh", None) in hs:
                callers.add(b.path.split("::{closure")[0])
    return bool(callers) and all(short(c) in roots or only_from(ctx, c, roots, depth + 1) for c in callers)
