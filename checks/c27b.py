"""C27, second part: what chainable methods set, how ranges keep their bounds, key-value builders, modifying documents."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import proto

CO = "bonsaidb_core::"
CN = CO + "connection::"
SC = CO + "schema::collection::"
KV = CO + "keyvalue::implementation::"
CD = CO + "document::collection::CollectionDocument::<C>::"
TX = CO + "transaction::"
STD = "core::ops::range::"
# the structures whose fields chainable methods and constructors set
SHAPES = {CN + x for x in ("List", "AsyncListBuilder", "View", "AsyncView", "Range", "RangeRef")} | {SC + x for x in ("Entry", "EntryBuilder")} | {
    KV + m + "::" + x for m in ("get", "set", "increment") for x in ("Builder", "Options")} | {KV + "namespaced::Namespaced", TX + "Operation"}
LISTF, VIEWF, ENTRYF = "collection range sort limit".split(), "connection key access_policy sort limit".split(), "name connection insert update retry_limit".split()
GETF, INCF, SETF = "kv namespace key delete".split(), "kv namespace key increment amount saturating".split(), "kv namespace key value expiration keep_existing_expiration check".split()
ALLF = set(LISTF + VIEWF + ENTRYF + GETF + INCF + SETF)
IGN = {"_view", "_value", "_collection", "start", "end"}


def table():
    out = []

    def add(paths, fields, **spec):
        for p in paths:
            out.append((p, {f: spec.get(f, ".%s p1" % f) for f in fields}))
    L = [CN + "List::<'a, Cn, Cl, PrimaryKey>::", CN + "AsyncList::<'a, Cn, Cl, PrimaryKey>::"]
    S = [SC + "List::<'a, Cn, Cl, PrimaryKey>::", SC + "AsyncList::<'a, Cn, Cl, PrimaryKey>::"]
    add([p + "new" for p in L], LISTF, collection="p1", range="p2", sort="Ascending", limit="None")
    for m, s in (("ascending", {"sort": "Ascending"}), ("descending", {"sort": "Descending"}), ("limit", {"limit": "p2"})):
        add([p + m for p in L + S], LISTF, **s)
    C = [CN + "Collection::<'a, Cn, Cl>::", CN + "AsyncCollection::<'a, Cn, Cl>::"]
    base = dict(collection="p1", sort="Ascending", limit="None")
    add([p + "list" for p in C], LISTF, range="p2/borrowed?", **base)
    add([p + "list_with_prefix" for p in C], LISTF, range="p2/to_prefix_range", **base)
    add([p + "all" for p in C], LISTF, range="/borrowed?", **base)
    base["collection"] = "p2"
    G = [SC + "SerializedCollection::" + x for x in ("list", "list_async")]
    add(G, LISTF, range="p1", **base)
    add([SC + "SerializedCollection::" + x for x in ("list_with_prefix", "list_with_prefix_async")], LISTF, range="p1/to_prefix_range", **base)
    base["collection"] = "p1"
    add([SC + "SerializedCollection::" + x for x in ("all", "all_async")], LISTF, range="/borrowed?", **base)
    V = [CN + "View::<'a, Cn, V, Key>::", CN + "AsyncView::<'a, Cn, V, Key>::"]
    add([p + "new" for p in V], VIEWF, connection="p1", key="None", access_policy="UpdateBefore", sort="Ascending", limit="None")
    add([CN + "Connection::view", CN + "AsyncConnection::view"], VIEWF, connection="p1", key="None", access_policy="UpdateBefore", sort="Ascending", limit="None")
    for m, s in (("ascending", {"sort": "Ascending"}), ("descending", {"sort": "Descending"}), ("limit", {"limit": "p2"}), ("with_access_policy", {"access_policy": "p2"}), ("with_key", {"key": "Matches p2"}),
                 ("with_keys", {"key": "Multiple p2"}), ("with_key_range", {"key": "Range p2"}), ("with_key_prefix", {"key": "Range p2/to_prefix_range"})):
        add([p + m for p in V], VIEWF, **s)
    E = [SC + "Entry::<'a, 'name, Connection, Col, EI, EU>::", SC + "AsyncEntry::<'a, 'name, Connection, Col, EI, EU>::"]
    for m, s in (("or_insert_with", {"insert": "p2"}), ("update_with", {"update": "p2"}), ("retry_limit", {"retry_limit": "p2"})):
        add([p + m for p in E], ENTRYF, **s)
    add([SC + "NamedCollection::entry", SC + "NamedCollection::entry_async"], ENTRYF, name="p1", connection="p2", insert="None", update="None", retry_limit="0")
    g, s, i = ([KV + m + "::" + x + "::<'a, K%s>::" % v for x in ("Builder", "AsyncBuilder")] for m, v in (("get", ""), ("set", ", V"), ("increment", ", V")))
    add([p + "new" for p in g], GETF, kv="p1", namespace="p2", key="p3", delete="0")
    add([p + "new" for p in s], SETF, kv="p1", namespace="p2", key="p3", value="p4", expiration="None", keep_existing_expiration="0", check="None")
    add([p + "new" for p in i], INCF, kv="p1", namespace="p2", increment="p3", key="p4", amount="p5", saturating="1")
    add([p + "and_delete" for p in g], GETF, delete="1")
    add([p + "allow_overflow" for p in i], INCF, saturating="0")
    for m, x in (("expire_in", {"expiration": "p2/now add"}), ("expire_at", {"expiration": "p2"}), ("keep_existing_expiration", {"keep_existing_expiration": "1"}),
                 ("only_if_exists", {"check": "OnlyIfPresent"}), ("only_if_vacant", {"check": "OnlyIfVacant"})):
        add([p + m for p in s], SETF, **x)
    ns = "p1/key_namespace"
    for t in ("KeyValue::", "AsyncKeyValue::"):
        add([KV + t + "get_key"], GETF, kv="p1", namespace=ns, key="p2", delete="0")
        for m, v in (("set_key", "Serializeable p3"), ("set_binary_key", "Bytes p3"), ("set_numeric_key", "Numeric p3")):
            add([KV + t + m], SETF, kv="p1", namespace=ns, key="p2", value=v, expiration="None", keep_existing_expiration="0", check="None")
        for m, v in (("increment_key_by", "1"), ("decrement_key_by", "0")):
            add([KV + t + m], INCF, kv="p1", namespace=ns, key="p2", increment=v, amount="p3", saturating="1")
        add([KV + t + "with_key_namespace"], ["namespace", "kv"], namespace="p2/", kv="p1")
    R = CN + "Range::<T>::"
    se = ["start", "end"]
    for m, x in (("after", {"start": "Excluded p2"}), ("start_at", {"start": "Included p2"}), ("before", {"end": "Excluded p2"}), ("end_at", {"end": "Included p2"})):
        add([R + m], se, **x)
    both = lambda c, p="p1": {"start": ".start %s/%s" % (p, c), "end": ".end %s/%s" % (p, c)}
    for m in ("map", "map_ref", "map_result"):
        o = "map" if m == "map" else m
        out.append((R + m, {k: "%s p2%s" % (v.partition("/")[0], "" if m == "map" else "/" + m) for k, v in both(o).items()}))
    out.append((CN + "Range::<arc_bytes::serde::Bytes>::deserialize", both("deserialize")))
    RR = CN + "RangeRef::<'a, TOwned, TBorrowed>::"
    out.append((RR + "as_ord_bytes", both("as_ord_bytes")))
    out.append((RR + "borrowed", both("borrowed")))
    out.append((RR + "owned", both("owned")))
    out.append((RR + "map_result", {k: "%s p2/map_result" % v.partition("/")[0] for k, v in both("x").items()}))
    for ty, ref in (("Range<T>", "T"), ("RangeRef<'a, TOwned, TBorrowed>", "TOwned"), ("RangeRef<'a, TOwned, TBorrowed>", "&'a TBorrowed")):
        for n, x in (("Range", ("Included .start p1", "Excluded .end p1")), ("RangeFrom", ("Included .start p1", "Unbounded")), ("RangeTo", ("Unbounded", "Excluded .end p1")),
                     ("RangeInclusive", ("Included p1/start", "Included p1/end")), ("RangeToInclusive", ("Unbounded", "Included .end p1")), ("RangeFull", ("Unbounded", "Unbounded"))):
            for r in ("", "&'b "):
                a = "<%s>" % ref if n != "RangeFull" else ""
                out.append(("<%s%s as core::convert::From<%s%s%s%s>>::from" % (CN, ty, r, STD, n, a), {"start": x[0], "end": x[1]}))
    O = TX + "Operation::"
    nm = "/collection_name"
    for m, c, x in (("insert", "Insert", {"collection": "p1", "id": "p2", "contents": "p3"}), ("update", "Update", {"collection": "p1", "header": "p2", "contents": "p3"}),
                    ("overwrite", "Overwrite", {"collection": "p1", "id": "p2", "contents": "p3"}), ("delete", "Delete", {"collection": "p1", "header": "p2"}),
                    ("check_document_id_exists", "Check", {"collection": "p1", "id": "p2", "revision": "None"}),
                    ("check_document_exists", "Check", {"collection": nm, "id": "p1/new", "revision": "None"}),
                    ("check_document_is_current", "Check", {"collection": nm, "id": ".id p1/header", "revision": ".revision p1/header"}),
                    ("insert_serialized", "Insert", {"collection": nm, "id": "None?p1/new?", "contents": "p2/serialize"}),
                    ("push_serialized", "Insert", {"collection": nm, "id": "None?p1/new? natural_id", "contents": "p1/serialize"}),
                    ("update_serialized", "Update", {"collection": nm, "header": "p1", "contents": "p2/serialize"}),
                    ("overwrite_serialized", "Overwrite", {"collection": nm, "id": "p1/new", "contents": "p2/serialize"})):
        out.append((O + m, {"collection": x["collection"], "command": (c, {k: v for k, v in x.items() if k != "collection"})}))
    return out


def shapes(ctx, TT, c27):
    n = 0
    for path, spec in table():
        b = ctx.F.body(path)
        if b is None:
            if path.startswith("<" + CN) and ("&'b" in path or "RangeRef" in path or "RangeToInclusive" in path):
                continue            # not every combination of ranges has a conversion
            ctx.need(path)
            continue
        n += 1
        shape(ctx, TT, c27, b, path, spec)
    ctx.floor("constructors", n, 105)


def shape(ctx, TT, c27, b, path, spec):
    pre = path.replace(CO, "").replace("schema::collection::", "").replace("keyvalue::implementation::", "kv::")
    F = ctx.F

    def judge(st, w, f, ops, ex, variant=None):
        e = spec[f]
        if isinstance(e, tuple):
            got = {}
            for o in ops:
                for x in TT.walk(TT.norm(ex.term(st, o)), 0):
                    if x.k == "agg" and x.d[0] == TX + "Command":
                        ctx.ob(pre + ":command", x.d[1] == e[0], w, "the command is %s" % x.d[1])
                        got.update(x.d[2])
            ctx.ob(pre + ":fields", set(got) == set(e[1]), w, "the command's fields are %s" % sorted(got))
            for k, v in got.items():
                if k in e[1]:
                    one(w, k, [v], e[1][k], None)
            return
        one(w, f, [ex.term(st, o) for o in ops], e, variant)

    def one(w, f, ts, e, variant):
        l, c = set(), set()
        for t in ts:
            a, z = c27.Prov(ctx, TT, b).of(t)
            l, c = l | a, c | z
        if variant:
            l.add(variant)
        if e.startswith("None?"):
            l, e = l - {"None"}, e[5:]
        wl, wc = c27.want(e)
        opt = {x[:-1] for x in wc if x.endswith("?")}
        wc = {x for x in wc if not x.endswith("?")}
        if f == "namespace" and "with_key_namespace" in path:
            wc = c
        ctx.ob(pre + ":" + f, l == wl and wc <= c <= wc | opt, w, "`%s` becomes %s through %s (expected: %s)" % (f, sorted(l), sorted(c), e))

    def assign(ps, st, place, rv, line, ex):
        w = "%s:%d" % (st.fr.body.file, line)
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] in SHAPES:
            for f, o in zip(rv[5], rv[6]):
                if f in spec:
                    judge(st, w, f, [o], ex)
                elif f not in IGN:
                    ctx.fail(pre + ":" + f, w, "sets an unknown field `%s`" % f)
            return ps.set(n=True)
        if len(place) > 1 and place[-1][0] == "f" and place[-1][2] in spec and rv[0] in ("use", "agg", "cast") and st.fr.body.locals[place[0]].peel().s:
            f = place[-1][2]
            if rv[0] == "agg" and rv[2] in SHAPES:
                return ps.set(n=True)
            e = spec[f]
            if e == ".%s p1" % f:
                ctx.fail(pre + ":" + f, w, "changes `%s`" % f)
            elif rv[0] == "agg":
                n = rv[2].rsplit("::", 1)[-1] if isinstance(rv[2], str) else ""
                judge(st, w, f, list(rv[6]), ex, rv[4] if rv[4] in ("None", "Unbounded", "Included", "Excluded") or n in c27.KEEP and n != rv[4] and rv[4] not in c27.WRAP else None)
            else:
                judge(st, w, f, [rv[1]], ex)
            return ps.set(n=True)
        return ps

    def ret(ps, val, st, ex):
        ctx.ob(pre + ":set", ps.n or val.get(()) == 1 and "Result" in b.locals[0].s, ctx.where(b), "returns without having set what it is named after")

    proto.run(ctx, TT, b, pre, {"x": ["bonsaidb::nothing"]}, lambda ps, l, c: None, c11.rec(("n",), n=False), assign=assign, ret=ret, reach_extra=makes)


def makes(b):
    """bodies that build or change one of the structures"""
    if not b.path.startswith((CO, "<" + CO)):
        return False
    r = b.__dict__.get("_c27makes") if hasattr(b, "__dict__") else None
    if r is None:
        r = False
        for blk in b.blocks:
            for p, rv, _ in (blk[0] if blk else ()):
                if rv and (rv[0] == "agg" and rv[1] == "adt" and rv[2] in SHAPES or len(p) > 1 and p[-1][0] == "f" and p[-1][2] in ALLF):
                    r = True
    return r


# ---- variants are kept --------------------------------------------------------------------------------
BND = ["Unbounded", "Included", "Excluded"]
SBND = ["Included", "Excluded", "Unbounded"]
QK = ["Matches", "Range", "Multiple"]


def variants(ctx, TT):
    B = CN + "Bound::<T>::"
    BR = CN + "BoundRef::<'a, TOwned, TBorrowed>::"
    rows = [(B + "map", BND, BND, 0), (B + "map_ref", BND, BND, 0), (B + "map_result", BND, BND, 1), (CN + "Bound::<arc_bytes::serde::Bytes>::deserialize", BND, BND, 1), (BR + "as_ord_bytes", BND, BND, 1),
            (BR + "borrowed", BND, BND, 0), (BR + "owned", BND, BND, 0), (BR + "map_result", BND, BND, 1), (CN + "QueryKey::<'a, KOwned, KBorrowed>::serialized", QK, QK, 1),
            (CN + "SerializedQueryKey::deserialized", QK, QK, 1)]
    for x in ("&'a %sBound<T>> for %sBound<&'a T>" % (CN, STD), "&'a %sBoundRef<'a, TOwned, TBorrowed>> for %sBound<&'a TBorrowed>" % (CN, STD), "%sBound<&'a T>> for %sBound<&'a T>" % (CN, STD)):
        rows.append((CN + "<impl core::convert::From<%s>::from" % x, BND, SBND, 0))
    for path, fr, to, res in rows:
        b = ctx.need(path)
        if b is None:
            continue
        pre = path.replace(CN, "").replace(STD, "std::")
        for i, v in enumerate(fr):
            ok = [0]

            def ret(ps, val, st, ex):
                k = (("v", 0), ("f", 0)) if res else ()
                if res and val.get(()) == 1:
                    return
                ok[0] += 1
                got = val.get(k)
                ctx.ob(pre + ":" + v, got == to.index(v), ctx.where(b), "%s turns into %s" % (v, to[got] if got is not None else "?"))
            proto.run(ctx, TT, b, pre, {"x": ["bonsaidb::nothing"]}, lambda ps, l, c: None, "", vals={1: {(): i}}, ret=ret)
            ctx.ob(pre + ":returns", ok[0] > 0, ctx.where(b), "no way to return for %s" % v)


# ---- modifying documents ---------------------------------------------------------------------------------
GETS = [SC + "SerializedCollection::get", SC + "SerializedCollection::get_async"]
UPD = [CD + "update", CD + "update_async"]
CALLS = ["core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call"]


LOADS = ("get_from_collection", "get", "get_async", "load", "load_async")


def conflict(ctx):
    return [v[0] for v in ctx.F.adts[CO + "Error"]["variants"]].index("DocumentConflict")


def modify(ctx, TT, name, entry):
    """modify and entry: reload after a conflict only, apply the change before each save, return what the save said"""
    b = ctx.need(name)
    if b is None:
        return
    pre = name.replace(CO, "").replace("schema::collection::", "")
    k = conflict(ctx)
    errk = (("v", 1), ("f", 0))
    other = [i for i in range(len(ctx.F.adts[CO + "Error"]["variants"])) if i != k][0]

    loads, used = set(), set()

    def sites(t):
        return {(x.x[1].body.h, x.x[3]) for x in TT.walk(TT.norm(t), 4) if x.k == "call" and x.x and short(x.d[0]) in LOADS}

    def step(ps, l, c):
        w = c.where()
        if l == "get":
            ctx.ob(pre + ":reload", ps.phase == "conflict" or entry and ps.phase == "start", w, "the document is loaded although %s" % ("nothing was saved" if ps.phase in ("start", "changed") else "the save did not conflict"))
            if entry and ps.phase == "conflict":
                ctx.ob(pre + ":limit", ps.limit, w, "the attempt is repeated without regard to the retry limit")
            loads.add((c.fr.body.h, c.bb, w))
            return [(ps.set(phase="loaded", limit=False, hand=False), res_ok({(): 1})), (ps.set(phase="none"), res_ok({(): 0})), (ps.set(phase="failed"), res_err())]
        if l == "change":
            if short(c.path) == "call_once":
                return None
            t = TT.norm(c.arg(0))
            if ps.phase == "failed" or not show(t):
                return None
            if ps.phase == "loaded" and not entry:
                ctx.ob(pre + ":taken", ps.hand, w, "the change is applied to the old document, not to the one loaded")
            ctx.ob(pre + ":fresh", ps.phase in ("start", "loaded"), w, "the change is applied although %s" % ("a conflict has not been resolved" if ps.phase == "conflict" else "the document is not in hand (%s)" % ps.phase))
            return [(ps.set(phase="changed"), {})]
        if l == "update":
            used.update(sites(c.arg(0)))
            ctx.ob(pre + ":changed", ps.phase == "changed", w, "the document is saved without the change having been applied since %s" % ps.phase)
            if entry and ps.again:
                ctx.ob(pre + ":counted", ps.less, w, "an attempt is repeated without being counted")
            ps = ps.set(again=True, less=False)
            return [(ps.set(phase="saved"), res_ok()), (ps.set(phase="conflict"), {(): 1, errk: k}), (ps.set(phase="failed"), {(): 1, errk: other})]
        if l == "insert":
            ctx.ob(pre + ":insert-only-absent", ps.phase == "none" and not ps.again, w, "a document is inserted although one may exist (%s)" % ps.phase)
            return [(ps.set(phase="inserted"), res_ok()), (ps.set(phase="failed"), res_err())]
        return None

    def ret(ps, val, st, ex):
        v = val.get(())
        if v == 0:
            some = val.get((("v", 0), ("f", 0)))
            ok = ps.phase == "saved"
            if entry:
                ok = ps.phase in ("saved", "inserted", "loaded", "none") or ps.phase == "start"
                if ps.phase == "loaded":
                    ctx.ob(pre + ":unchanged", ps.upd is False and not ps.again, ctx.where(b), "the document found is returned although it was to be changed")
                if ps.phase in ("saved", "inserted", "loaded"):
                    ctx.ob(pre + ":document", some == 1 or some is None, ctx.where(b), "no document is returned although there is one (%s)" % ps.phase)
                elif ps.phase == "none":
                    ctx.ob(pre + ":no-document", some == 0, ctx.where(b), "a document is returned although there is none")
            ctx.ob(pre + ":success", ok, ctx.where(b), "succeeds although the last step was: %s" % ps.phase)
        if ps.phase in ("failed",) or ps.phase == "conflict":
            ctx.ob(pre + ":failure", v == 1, ctx.where(b), "a failure (%s) ends in success" % ps.phase)

    def branch(ps, st, o, src, val, ex):
        if entry and val is not None:
            t = TT.norm(ex.term(st, o))
            if t.k == "disc":
                t = TT.norm(t.d[0])
                while t.k == "fld" and t.d[1].isdigit():
                    t = TT.norm(t.d[0])
                if t.k == "fld" and t.d[1] == "update" or t.k in ("par", "upv") and t.d[2] == "update":
                    return ps.set(upd=bool(val))
        if entry and ps.phase == "conflict" and o[0] in ("c", "m") and "retry_limit" in show(TT.norm(ex.term(st, o))):
            return ps.set(limit=True)
        return ps

    def assign(ps, st, place, rv, line, ex):
        if entry and rv[0] == "bin" and rv[1].startswith("Sub") and "retry_limit" in show(TT.norm(ex.term(st, rv[2]))):
            return ps.set(less=True)
        if ps.phase == "loaded" and len(place) > 1 and place[-1][0] == "f" and place[-1][2] in ("header", "contents"):
            ctx.fail(pre + ":all-of-it", "%s:%d" % (st.fr.body.file, line), "only the %s of the document loaded is taken" % place[-1][2])
        if not entry and len(place) > 1 and place[-1] == ("*",) and rv[0] in ("use", "cast") and ps.phase == "loaded" and sites(ex.term(st, rv[1])):
            return ps.set(hand=True)
        return ps
    ev = {"get": GETS, "update": UPD, "change": CALLS}
    if entry:
        ev = {"get": ["load", "load_async"], "update": UPD, "change": [SC + "EntryUpdate::update"], "insert": [SC + "SerializedCollection::push", SC + "SerializedCollection::push_async", SC + "SerializedCollection::push_into", SC + "SerializedCollection::push_into_async"]}
    proto.run(ctx, TT, b, pre, ev, step, c11.rec(("phase", "limit", "again", "less", "hand", "upd"), phase="start", limit=False, again=False, less=False, hand=False), need=("get", "update", "change"), ret=ret, branch=branch, assign=assign)
    if entry:
        for h, bi, w in loads:
            ctx.ob(pre + ":used", (h, bi) in used, w, "the document loaded is not the one that is saved")


def refresh(ctx, TT, c27, name):
    """the document becomes the one that is stored, whole; without one it fails"""
    b = ctx.need(name)
    if b is None:
        return
    pre = name.replace(CO, "")

    def step(ps, l, c):
        lv, cl = c27.Prov(ctx, TT, b).of(c.arg(0))
        ctx.ob(pre + ":id", {".header", ".id"} <= lv and cl <= {"new"}, c.where(), "the document loaded is %s through %s" % (sorted(lv), sorted(cl)))
        return [(ps.set(phase="loaded"), res_ok({(): 1})), (ps.set(phase="none"), res_ok({(): 0})), (ps.set(phase="failed"), res_err())]

    def assign(ps, st, place, rv, line, ex):
        w = "%s:%d" % (st.fr.body.file, line)
        if len(place) > 1 and place[-1][0] == "f" and place[-1][2] in ("header", "contents") and st.fr.body.file.endswith("document/collection.rs"):
            ctx.fail(pre + ":all-of-it", w, "only the %s of the document is refreshed" % place[-1][2])
        if len(place) > 1 and place[-1] == ("*",) and rv[0] in ("use", "cast") and ps.phase == "loaded" and any(x.k == "call" and short(x.d[0]) in LOADS for x in TT.walk(TT.norm(ex.term(st, rv[1])), 4)):
            return ps.set(hand=True)
        return ps

    def ret(ps, val, st, ex):
        ctx.ob(pre + ":result", (val.get(()) == 0) == (ps.hand is True), ctx.where(b), "%s after: %s" % ("succeeds" if val.get(()) == 0 else "fails", ps.phase))
    proto.run(ctx, TT, b, pre, {"get": GETS}, step, c11.rec(("phase", "hand"), phase="start"), need=("get",), ret=ret, assign=assign)


def single(ctx, TT, c27, path, agg, spec):
    """the one structure a function returns"""
    b = ctx.need(path)
    if b is None:
        return
    pre, n = path.replace(CO, ""), 0
    P = c27.Prov(ctx, TT, b)
    for x in c27.inner(ctx, TT, TT.local(TT.frame(b), 0, ())):
        if x.k == "agg" and x.d[0].endswith(agg[0]) and (x.d[1] or agg[1]) == agg[1]:
            n += 1
            for f, t in x.d[2]:
                l, c = P.of(t)
                wl, wc = c27.want(spec[f])
                ctx.ob("%s:%s" % (pre, f), l == wl and c == wc, ctx.where(b), "the %s is made from %s through %s" % (f, sorted(l), sorted(c)))
    ctx.ob(pre + ":made", n == 1, ctx.where(b), "%d structures are returned" % n)
    ctx.ob(pre + ":errors", not c27.swallowed(P.of(TT.local(TT.frame(b), 0, ()))[1]), ctx.where(b), "an error is dropped")


def prepare(ctx, TT):
    """a pending value becomes the value of its kind"""
    for name in [x.path for x in ctx.F.find("PendingValue::<'a, V>::prepare")] or ["prepare"]:
        b = ctx.need(name)
        if b is None:
            continue
        pv = [v[0] for v in ctx.F.adts[KV + "PendingValue"]["variants"]]
        vs = [v[0] for v in ctx.F.adts[CO + "keyvalue::Value"]["variants"]]
        for i, v in enumerate(pv):
            seen = [0]

            def ret(ps, val, st, ex, v=v):
                if val.get(()) == 1:
                    ctx.ob("prepare:%s:fails" % v, v == "Serializeable", ctx.where(b), "fails for %s" % v)
                    return
                seen[0] += 1
                got = val.get((("v", 0), ("f", 0)))
                ctx.ob("prepare:" + v, got is not None and vs[got] == ("Numeric" if v == "Numeric" else "Bytes"), ctx.where(b), "%s becomes %s" % (v, vs[got] if got is not None else "?"))
            proto.run(ctx, TT, b, "prepare", {"ser": ["pot::to_vec"]}, lambda ps, l, c: [(ps, res_ok()), (ps, res_err())], "", vals={1: {(): i}}, ret=ret)
            ctx.ob("prepare:%s:returns" % v, seen[0] > 0, ctx.where(b), "never succeeds for %s" % v)


def push_all(ctx, TT, c27, name):
    """one operation and one document per content, in one order; the headers reported go to the documents in that order"""
    b = ctx.need(name)
    if b is None:
        return
    pre = name.replace(CO, "").replace("schema::collection::", "")
    P = c27.Prov(ctx, TT, b)

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "mut":
            ctx.fail(pre + ":untouched", w, "the documents or their operations are changed by `%s`" % n)
            return None
        if l == "iter":
            t = " ".join(a.s for a in c.fn.args)
            if ps.applied and "Zip" not in t and "IntoIter" not in t and "Enumerate" not in t:
                return None
            if not ps.applied:
                ctx.ob(pre + ":each", ps.op == ps.kept, w, "a content is %s" % ("sent but not returned" if ps.op else "returned but not sent"))
                return [(ps.set(op=False, kept=False, el=True), {(): 1}), (ps.set(op=False, kept=False, el=False), {(): 0})]
            ctx.ob(pre + ":headers", not ps.el or ps.head, w, "a document is returned without the header reported for it")
            return [(ps.set(el=True, head=False), {(): 1}), (ps.set(el=False), {(): 0})]
        if l == "push":
            lv, cl = P.of(c.arg(1))
            ctx.ob(pre + ":operation", ps.el and not ps.op and not ps.applied and lv >= {"p1"} and {"serialize", "collection_name"} <= cl and not c27.swallowed(cl) and not cl & set(c27.SELECT), w, "the operation is made from %s through %s" % (sorted(lv), sorted(cl)))
            return [(ps.set(op=True), {})]
        if l == "keep":
            fs = [dict(x.d[2]) for x in c27.inner(ctx, TT, c.arg(1)) if x.k == "agg" and "CollectionDocument" in x.d[0]]
            ctx.ob(pre + ":document", len(fs) == 1 and ps.el and not ps.kept and not ps.applied, w, "a document is added out of turn")
            for d in fs:
                lv, cl = P.of(d["contents"])
                ctx.ob(pre + ":contents", lv == {"p1"} and not cl - {"next"}, w, "the contents returned are made from %s through %s" % (sorted(lv), sorted(cl)))
            return [(ps.set(kept=True), {})]
        if l == "apply":
            ctx.ob(pre + ":apply", not ps.applied and not ps.el, w, "the transaction is applied more than once, or before it is complete")
            return [(ps.set(applied=True, el=False), res_ok()), (ps.set(bad=True), res_err())]
        return None

    def assign(ps, st, place, rv, line, ex):
        if ps.applied and len(place) > 1 and place[-1][0] == "f" and place[-1][2] == "header":
            l, c = P.of(ex.term(st, rv[1])) if rv[0] in ("use", "cast") else ((), ())
            ctx.ob(pre + ":reported", ".header" in l and bool({"apply", "apply_async", "apply_transaction"} & set(c)) and not set(c) & set(c27.SELECT), "%s:%d" % (st.fr.body.file, line), "the header is made from %s through %s" % (sorted(l), sorted(c)))
            return ps.set(head=True)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", ps.applied is True and not ps.bad, ctx.where(b), "succeeds without having applied the transaction")
        if ps.bad:
            ctx.ob(pre + ":failed", val.get(()) == 1, ctx.where(b), "a failed transaction ends in success")
    proto.run(ctx, TT, b, pre, {"iter": [proto.ITER], "push": [TX + "Transaction::push"], "apply": ["apply", "apply_async", "apply_transaction"], "keep": ["alloc::vec::Vec::<T, A>::push"], "mut": c27.MUTS}, step,
              c11.rec(("el", "op", "kept", "applied", "bad", "head"), op=False, kept=False, el=False), need=("iter", "push", "keep", "apply"), ret=ret, assign=assign,
              stop=lambda x: short(x.path) in ("apply", "apply_async") or x.path.startswith(TX))


def run(ctx, TT, c27):
    for n in ("refresh", "refresh_async"):
        refresh(ctx, TT, c27, CD + n)
    single(ctx, TT, c27, CD + "to_document", ("OwnedDocument", "OwnedDocument"), {"header": ".header p1", "contents": ".contents p1/serialize"})
    prepare(ctx, TT)
    for n in ("push_all", "push_all_async"):
        push_all(ctx, TT, c27, SC + "SerializedCollection::" + n)
    shapes(ctx, TT, c27)
    variants(ctx, TT)
    for n in ("modify", "modify_async"):
        modify(ctx, TT, CD + n, False)
    modify(ctx, TT, SC + "Entry::<'a, 'name, Connection, Col, EI, EU>::execute", True)
    modify(ctx, TT, SC + "AsyncEntry::<'a, 'name, Connection, Col, EI, EU>::execute", True)
