"""C29: administering identities changes exactly the identity and the membership that were named."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c19
import fwd
import proto

EXPLAIN = ("Each administrative operation is explored over compiler MIR on every path, from the reference it is given to the document that is saved, "
           "through the generic helpers (whose type parameters are followed back to what each caller chose), with each look-up finding something, "
           "finding nothing and failing. Predicates of removals are explored on their own. The look-up of a named document, in its "
           "blocking and asynchronous form, and the views it uses are checked in the same way.")
RULE = ("The identity changed is the one loaded under the reference given for the user, from the users; the id added or removed is the one found for "
        "the reference given for the group or role, among the permission groups or roles. It is added once to, or every occurrence of exactly it is removed "
        "from, that user's list of groups or roles respectively; nothing else of the user changes; it is saved whenever it changed, and success is reported "
        "only then. A look-up by name asks the collection's own by-name view for that key, one by id or key uses it as it is.")
ASSUME = ["C13 (a name view has one entry per name).", "C08 (updates are based on the loaded revision)."]
ST = "bonsaidb_local::storage::"
SI = ST + "StorageInstance"
SC = "bonsaidb_core::connection::StorageConnection"
AD = "bonsaidb_core::admin::"
COL = "bonsaidb_core::schema::collection::"
VEC = "alloc::vec::Vec::<T, A>::"
LOAD, IDOF = COL + "NamedCollection::load", COL + "NamedReference::<'a, Id>::id"
UPD, DEL = "bonsaidb_core::document::collection::CollectionDocument::<C>::update", "bonsaidb_core::document::collection::CollectionDocument::<C>::delete"
EQ = ["core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"]
OPS = {"add_permission_group_to_user": ("groups", AD + "group::PermissionGroup", True), "remove_permission_group_from_user": ("groups", AD + "group::PermissionGroup", False),
       "add_role_to_user": ("roles", AD + "role::Role", True), "remove_role_from_user": ("roles", AD + "role::Role", False)}
LISTS = ("groups", "roles", "username", "argon_hash")


def check(ctx):
    TT = ctx.terms(opaque={LOAD, IDOF, UPD, DEL, "bonsaidb_local::storage::argon::Hasher::hash", ST + "Storage::admin", SI + "::admin", "<%sStorage as %s>::admin" % (ST, SC), "<%s as %s>::admin" % (SI, SC)})
    n = 0
    for T in (SI, ST + "Storage"):
        for name, (field, ty, adds) in OPS.items():
            n += membership(ctx, TT, T, name, field, ty, adds)
    ctx.floor("membership", n, 8)
    for T in (SI, ST + "Storage"):
        remove_user(ctx, TT, T)
        password(ctx, TT, T)
        add_user(ctx, TT, T)
    lookups(ctx)
    views(ctx, TT)


def par(b, t, i):
    out = []
    for a in alts(t):
        while a.k == "call" and short(a.d[0]) in ("name", "clone", "into", "from", "to_owned", "as_ref", "deref", "borrow") and a.d[1]:
            a = a.d[1][0]
        r, f = fwd.unwrap(a)
        out.append(r.k == "par" and r.d[0] == b.h and r.d[1] == i)
    return bool(out) and all(out)


def good(t):
    """alternatives of a term that are not an error on its way out, or the absence of something"""
    return [a for a in alts(t) if not (a.k == "agg" and a.d[1] in ("Err", "None")) and not (a.k == "fld" and a.d[1] in ("Err",))]


def origin(TT, t, name, depth=0):
    return c19.calls(TT, t, name, depth)


def is_user(TT, b, t, i=2):
    """everything in t comes from the user loaded under parameter i"""
    l = origin(TT, t, "load")
    return bool(l) and all(par(b, x.d[1][0], i) for x in l)


def loads(ctx, TT, b, c, pre):
    """a look-up of the user or of the group or role"""
    n = short(c.path)
    t = proto.gty(TT, c.fr, c.fn.args[0] if n == "load" else c.fn.args[1])
    return t.adt or t.s


def len_changed(TT, ex, st, o, val, field):
    """True/False: the branch says that lengths differ / are equal"""
    if val is None or o[0] not in ("c", "m"):
        return None
    t = ex.term(st, o)
    r = set()
    for x in TT.walk(TT.norm(t), 0):
        neg = None
        if x.k == "bin" and x.d[0] in ("Ne", "Eq", "Lt", "Gt"):
            a, c, op = x.d[1][0], x.d[1][1], x.d[0]
        elif x.k == "call" and short(x.d[0]) in ("ne", "eq", "lt", "gt"):
            a, c, op = x.d[1][0], x.d[1][1], short(x.d[0]).capitalize()
        else:
            continue
        if all(origin(TT, y, "len") and {z.d[1] for z in TT.walk(TT.norm(y), 0) if z.k == "fld" and z.d[1] in LISTS} == {field} for y in (a, c)):
            r.add((op == "Eq") != bool(val))
    return r.pop() if len(r) == 1 else None


def removes_only(ctx, TT, c, clo, pre, idok):
    """the predicate of a retain keeps everything but the id"""
    w = c.where()
    if clo.k != "clo":
        ctx.fail(pre + ":which", w, "what is kept is decided by %s" % show(clo)[:60])
        return
    cb = ctx.F.bodies[clo.x[0]]
    fr = TT.frame(cb, clo.x[1], None, tuple((clo.x[1], o) for o in clo.x[2]), ("pred",))
    seen = []

    def side(t):
        t = TT.norm(t)
        r, _ = fwd.unwrap(t)
        if r.k == "par" and r.d[0] == cb.h:
            return "item"
        return "id" if idok(t) else "?"

    def step(ps, l, c2):
        a, z = side(c2.arg(0)), side(c2.arg(1))
        ctx.ob(pre + ":compares", {a, z} == {"item", "id"}, c2.where(), "removing compares %s with %s" % (show(c2.arg(0))[:50], show(c2.arg(1))[:50]))
        eq = short(c2.fn.path) == "eq"
        return [("same", {(): int(eq)}), ("other", {(): int(not eq)})]

    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "bin" and rv[1] in ("Eq", "Ne") and place == (0,):
            a, z = side(ex.term(st, rv[2])), side(ex.term(st, rv[3]))
            ctx.ob(pre + ":compares", {a, z} == {"item", "id"}, w, "removing compares something else")
            return rv[1]
        return ps

    def ret(ps, val, st, ex):
        v = val.get(())
        seen.append((ps, v))
        if ps in ("Ne", "Eq"):
            ctx.ob(pre + ":kept", ps == "Ne", ctx.where(cb), "removing keeps what was to be removed")
        elif v is None:
            ctx.fail(pre + ":kept", ctx.where(cb), "what removing keeps is not decided by comparing ids")
        else:
            ctx.ob(pre + ":kept", (ps == "other") == bool(v), ctx.where(cb), "removing keeps the wrong entries")
    proto.run(ctx, TT, cb, pre + ":pred", {"eq": EQ}, step, "", frame=fr, assign=assign, ret=ret)


def membership(ctx, TT, T, name, field, ty, adds):
    b = ctx.method(T, SC, name)
    if b is None:
        return 0
    pre = "%s:%s" % (short(T), name)

    def idok(t):
        """everything in t comes from the id found for parameter 3"""
        ids = origin(TT, t, "id")
        return bool(ids) and all(par(b, x.d[1][0], 3) for x in ids) and not origin(TT, t, "load")

    def listof(t):
        r, f = fwd.unwrap(TT.norm(t))
        fs = {x.d[1] for x in TT.walk(TT.norm(t), 0) if x.k == "fld" and x.d[1] in LISTS}
        return fs

    def step(ps, l, c):
        w = c.where()
        if l == "load":
            t = loads(ctx, TT, b, c, pre)
            ctx.ob(pre + ":user", t == AD + "user::User" and par(b, c.arg(0), 2), w, "the user changed is the %s under %s" % (short(t), show(c.arg(0))[:50]))
            ctx.ob(pre + ":admin", bool(origin(TT, c.arg(1), "admin")), w, "users are looked up in %s" % show(c.arg(1))[:50])
            return [(ps.set(user=True), res_ok({(): 1})), (ps.set(user=False), res_ok({(): 0})), (ps.set(bad=True), res_err())]
        if l == "id":
            t = loads(ctx, TT, b, c, pre)
            ctx.ob(pre + ":among", t == ty, w, "what is to be %s is looked up among the %s" % ("added" if adds else "removed", short(t)))
            ctx.ob(pre + ":what", par(b, c.arg(0), 3), w, "what is to be %s is found under %s" % ("added" if adds else "removed", show(c.arg(0))[:50]))
            ctx.ob(pre + ":admin", bool(origin(TT, c.arg(1), "admin")), w, "it is looked up in %s" % show(c.arg(1))[:50])
            return [(ps.set(other=True), res_ok({(): 1})), (ps.set(other=False), res_ok({(): 0})), (ps.set(bad=True), res_err())]
        if l in ("has", "push", "retain", "clear"):
            if not (is_user(TT, b, c.arg(0)) and listof(c.arg(0))):
                return None
            fs = listof(c.arg(0))
            ctx.ob(pre + ":list", fs == {field}, w, "the user's %s are %s" % ("/".join(sorted(fs)), "looked through" if l == "has" else "changed"))
            if l == "has":
                ctx.ob(pre + ":looked-for", idok(c.arg(1)), w, "looked for is %s" % show(c.arg(1))[:60])
                return [(ps.set(there=True), {(): 1}), (ps.set(there=False), {(): 0})]
            if l == "push":
                ctx.ob(pre + ":added", adds and idok(c.arg(1)), w, "what is added is %s" % show(c.arg(1))[:60])
                ctx.ob(pre + ":added-once", ps.there is False and not ps.changed, w, "it is added although it may be there already")
                return [(ps.set(changed=True), {})]
            if l == "retain":
                ctx.ob(pre + ":not-removed", not adds, w, "an entry is removed by an operation that adds")
                removes_only(ctx, TT, c, TT.norm(c.arg(1)), pre, idok)
                return [(ps.set(changed=True, tried=True), {})]
            ctx.fail(pre + ":other-change", w, "the list is changed by %s" % short(c.path))
            return [(ps, {})]
        if l == "save":
            ctx.ob(pre + ":saved", is_user(TT, b, c.arg(0)), w, "what is saved is %s" % show(c.arg(0))[:60])
            ctx.ob(pre + ":saved-to", bool(origin(TT, c.arg(1), "admin")), w, "it is saved to %s" % show(c.arg(1))[:60])
            return [(ps.set(changed=False, saved=True), res_ok()), (ps.set(bad=True), res_err())]
        return None

    def branch(ps, st, o, src, val, ex):
        if ps.changed and ps.tried:
            v = len_changed(TT, ex, st, o, val, field)
            if v is False:
                return ps.set(changed=False, same=True)
        return ps

    def assign(ps, st, place, rv, line, ex):
        # a field of the user's contents written directly
        if "contents" in names(place) and rv[0] not in ("setd", "dead"):
            ctx.fail(pre + ":other-field", "%s:%d" % (st.fr.body.file, line), "`%s` of the user is overwritten" % names(place)[-1])
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            w = ctx.where(b)
            ctx.ob(pre + ":found", ps.user is True and ps.other is True, w, "succeeds although the user or what it was to be given was not found")
            ctx.ob(pre + ":kept-change", not ps.changed, w, "succeeds without the change having been saved")
            ctx.ob(pre + ":failed", not ps.bad, w, "succeeds although a step failed")
            ctx.ob(pre + ":done", ps.saved or ps.same or ps.there is (True if adds else False), w, "succeeds without having done anything")
    proto.run(ctx, TT, b, pre, {"load": [LOAD], "id": [IDOF], "has": ["contains"], "push": [VEC + "push"], "retain": [VEC + "retain", VEC + "retain_mut"],
                                "clear": [VEC + x for x in ("clear", "truncate", "insert", "remove", "swap_remove", "pop", "drain", "extend_from_slice", "dedup", "append")],
                                "save": [UPD]}, step,
              c11.rec(("user", "other", "there", "changed", "tried", "saved", "same", "bad")), need=("load", "id", "save"), ret=ret, branch=branch, assign=assign)
    return 1


def remove_user(ctx, TT, T):
    b = ctx.method(T, SC, "delete_user")
    if b is None:
        return
    pre = "%s:delete_user" % short(T)

    def step(ps, l, c):
        w = c.where()
        if l == "load":
            t = loads(ctx, TT, b, c, pre)
            ctx.ob(pre + ":user", t == AD + "user::User" and par(b, c.arg(0), 2), w, "the user deleted is the %s under %s" % (short(t), show(c.arg(0))[:50]))
            return [(ps, res_ok({(): 1})), (ps.set(bad=True), res_ok({(): 0})), (ps.set(bad=True), res_err())]
        ctx.ob(pre + ":deleted", is_user(TT, b, c.arg(0)), w, "what is deleted is %s" % show(c.arg(0))[:60])
        ctx.ob(pre + ":from", bool(origin(TT, c.arg(1), "admin")), w, "it is deleted from %s" % show(c.arg(1))[:60])
        return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", ps.done and not ps.bad, ctx.where(b), "a user is reported deleted that was not found, or not deleted")
    proto.run(ctx, TT, b, pre, {"load": [LOAD], "delete": [DEL]}, step, c11.rec(("done", "bad")), need=("load", "delete"), ret=ret)


def password(ctx, TT, T):
    b = ctx.method(T, SC, "set_user_password")
    if b is None:
        return
    pre = "%s:set_user_password" % short(T)

    def step(ps, l, c):
        w = c.where()
        if l == "load":
            t = loads(ctx, TT, b, c, pre)
            ctx.ob(pre + ":user", t == AD + "user::User" and par(b, c.arg(0), 2), w, "the user changed is the %s under %s" % (short(t), show(c.arg(0))[:50]))
            return [(ps, res_ok({(): 1})), (ps.set(bad=True), res_ok({(): 0})), (ps.set(bad=True), res_err())]
        if l == "hash":
            i = len(c.args) - 1
            ctx.ob(pre + ":password", par(b, c.arg(i), 3), w, "what is hashed is %s" % show(c.arg(i))[:50])
            ctx.ob(pre + ":salted-for", is_user(TT, b, c.arg(i - 1)), w, "it is hashed for %s" % show(c.arg(i - 1))[:50])
            return [(ps.set(hashed=True), res_ok()), (ps.set(bad=True), res_err())]
        ctx.ob(pre + ":saved", is_user(TT, b, c.arg(0)), w, "what is saved is %s" % show(c.arg(0))[:60])
        ctx.ob(pre + ":set-first", ps.put, w, "the user is saved without the new hash")
        return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

    def assign(ps, st, place, rv, line, ex):
        t = None
        if rv[0] in ("use", "cast"):
            t = ex.term(st, rv[1])
        elif rv[0] == "agg":
            t = ex.term(st, rv[6][0]) if rv[6] else None
        if t is not None and names(place)[-1:] == ["argon_hash"]:
            ctx.ob(pre + ":new-hash", any(x.k == "call" and x.d[0].endswith("Hasher::hash") for x in TT.walk(TT.norm(t), 1)), "%s:%d" % (st.fr.body.file, line), "the hash set is %s" % show(t)[:60])
            return ps.set(put=True)
        if "contents" in names(place) and names(place)[-1] != "contents" and rv[0] not in ("setd", "dead"):
            ctx.fail(pre + ":other-field", "%s:%d" % (st.fr.body.file, line), "`%s` of the user is overwritten" % names(place)[-1])
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", ps.done and ps.hashed and not ps.bad, ctx.where(b), "a password is reported set that was not hashed and saved, or a step failed")
    proto.run(ctx, TT, b, pre, {"load": [LOAD], "hash": ["bonsaidb_local::storage::argon::Hasher::hash"], "save": [UPD]}, step, c11.rec(("done", "bad", "hashed", "put"), done=False), need=("load", "save", "hash"), ret=ret, assign=assign,
              stop=lambda x: x.path == "bonsaidb_local::storage::argon::Hasher::hash")


def names(place):
    return [e[2] for e in place[1:] if e[0] == "f" and len(e) > 2]


def add_user(ctx, TT, T):
    b = ctx.method(T, SC, "create_user")
    if b is None:
        return
    pre = "%s:create_user" % short(T)

    def step(ps, l, c):
        w = c.where()
        u = [x for x in TT.walk(TT.norm(c.arg(1)), 1) if x.k == "agg" and x.d[0] == AD + "user::User"]
        if not u:
            return None
        for x in u:
            f = dict(x.d[2])
            ctx.ob(pre + ":name", par(b, f["username"], 2), w, "the new user's name is %s" % show(f["username"])[:50])
            for k in ("groups", "roles", "argon_hash"):
                ctx.ob(pre + ":" + k, not [y for y in TT.walk(f[k], 1) if y.k in ("par", "str")] or origin(TT, f[k], "default"), w, "a new user has %s %s" % (k, show(f[k])[:50]))
        return [(ps.set(done=True), res_ok()), (ps.set(bad=True), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", ps.done and not ps.bad, ctx.where(b), "a user is reported created that was not stored")
    proto.run(ctx, TT, b, pre, {"push": ["push", "insert"]}, step, c11.rec(("done", "bad")), need=("push",), ret=ret)


# ---- by name ---------------------------------------------------------------------------------------------
def lookups(ctx):
    TT = ctx.terms()
    n = 0
    for path, kinds, first in (("NamedCollection::load_document", ("get", "view"), "document"), ("NamedCollection::load_document_async", ("get", "view"), "document"),
                               ("NamedReference::<'a, Id>::id", ("deser", "view"), "id"), ("NamedReference::<'a, Id>::id_async", ("deser", "view"), "id")):
        b = ctx.need(COL + path)
        if b is None:
            continue
        n += 1
        lookup(ctx, TT, b, short(path), first)
    ctx.floor("lookups", n, 4)


def variant(TT, t):
    """which variant's payload a term is, of the reference given"""
    out = set()
    for a in alts(TT.norm(t)):
        hit = {x.d[1] for x in TT.walk(a, 0) if x.k == "fld" and x.d[1] in ("Name", "Id", "Key")}
        out |= hit or {"?"}
    return out


def unchanged(TT, t):
    """nothing but conversions happened to it on the way"""
    return all(short(x.d[0]) in fwd.CONV + ("name",) for x in TT.walk(TT.norm(t), 0) if x.k == "call")


def lookup(ctx, TT, b, pre, what):
    asy = pre.endswith("_async")

    def from_ref(t):
        return any(x.k in ("par", "upv") for x in TT.walk(TT.norm(t), 0))

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "key":
            v = variant(TT, c.arg(1))
            ctx.ob(pre + ":name", v == {"Name"} and unchanged(TT, c.arg(1)), w, "the name asked for is %s" % show(c.arg(1))[:60])
            base = TT.norm(c.arg(0))
            vw = [x for x in TT.walk(base, 0) if x.k == "call" and short(x.d[0]) == "view"]
            ty = " ".join(a.s for a in c.fn.args if hasattr(a, "s"))
            ctx.ob(pre + ":view", "ByNameView" in ty, w, "the view asked is %s" % ty[:80])
            return [(ps.set(key=True), {})]
        if l == "query":
            ctx.ob(pre + ":keyed", ps.key is True, w, "the view is queried without the name as its key")
            return [(ps.set(q=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "get":
            v = variant(TT, c.arg(1))
            ctx.ob(pre + ":id", v <= {"Id", "Key"} and v and unchanged(TT, c.arg(1)), w, "the id asked for is %s" % show(c.arg(1))[:60])
            return [(ps.set(got=True), res_ok({(): 1})), (ps.set(got=True), res_ok({(): 0})), (ps.set(bad=True), res_err())]
        if l == "deser":
            ctx.ob(pre + ":id", variant(TT, c.arg(0)) == {"Id"} and unchanged(TT, c.arg(0)), w, "the id decoded is %s" % show(c.arg(0))[:60])
            return [(ps.set(got=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "next":
            return [(ps.set(first=True), {(): 1}), (ps, {(): 0})] if ps.q else None
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":failed", not ps.bad, ctx.where(b), "a failed look-up is reported as a success")
            if ps.key:
                ctx.ob(pre + ":asked", ps.q is True, ctx.where(b), "the view is not asked")
    proto.run(ctx, TT, b, pre, {"key": ["with_key"], "query": ["query", "query_with_docs", "query_with_collection_docs"], "get": ["bonsaidb_core::connection::Collection::<'a, Cn, Cl>::get", "bonsaidb_core::connection::AsyncCollection::<'a, Cn, Cl>::get"],
                                "deser": ["deserialize"], "next": [proto.ITER]}, step, c11.rec(("key", "q", "got", "bad", "first")), need=("key", "query") + (("get",) if what == "document" else ("deser",)), ret=ret,
              stop=lambda x: short(x.path) in ("with_key", "query", "query_with_docs", "get", "deserialize"))


def views(ctx, TT):
    """users, groups and roles are listed under their own names"""
    n = 0
    for m, f in (("user", "username"), ("group", "name"), ("role", "name")):
        b = next((x for x in ctx.F.bodies.values() if "admin::%s::ByName as" % m in x.path and x.path.endswith("::map")), None)
        if b is None:
            ctx.fail("view:%s" % m, "", "the view of %ss by name has no map function" % m)
            continue
        n += 1

        def step(ps, l, c, f=f, m=m):
            a = [y for y in fwd.unwrap(TT.norm(c.arg(1)))[1] if y != "*"][-1:]
            ctx.ob("view:%s:key" % m, a == [f], c.where(), "a %s is listed as %s" % (m, show(c.arg(1))[:40]))
            ctx.ob("view:%s:own" % m, any(x.k == "par" for x in TT.walk(TT.norm(c.arg(0)), 0)), c.where(), "it is listed for %s" % show(c.arg(0))[:40])
            return [(ps, res_ok()), (ps, res_err())]
        proto.run(ctx, TT, b, "view:" + m, {"emit": ["emit_key", "emit_key_and_value"]}, step, 0, need=("emit",))
    ctx.floor("views", n, 3)
