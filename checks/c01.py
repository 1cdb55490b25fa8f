"""C01: local operations are authorised before they take effect."""
from explore import callgraph, Explorer, res_ok, res_err
from terms import T, show, alts, short

EXPLAIN = ("Every public operation of the local database and storage handles is explored path by path over compiler MIR "
           "(entering helpers, closures and async bodies), with the outcome of each permission check tracked.")
RULE = ("On every path from an operation's entry to a call that reads or changes protected state, a permission check on the "
        "caller's own handle has succeeded whose action and resource are the ones of that operation (and of each element, for "
        "batched operations); a refused check never ends in a successful return; permission checks themselves succeed only for "
        "a handle without a session or when the session's permission set allows the action; resource names carry every part "
        "that identifies the resource, in order.")
ASSUME = ["Loops that check each element are assumed to run at least once (an empty batch has nothing to protect).",
          "The permission matcher of the `actionable` crate itself is trusted.",
          "The operation -> (action, resource) table was confirmed by hand from the documentation of the permission actions."]

DB = "bonsaidb_local::database::Database"
ST = "bonsaidb_local::storage::Storage"
SI = "bonsaidb_local::storage::StorageInstance"
LL = "bonsaidb_core::connection::lowlevel::LowLevelConnection"
CN = "bonsaidb_core::connection::Connection"
SC = "bonsaidb_core::connection::StorageConnection"
KV = "bonsaidb_core::keyvalue::implementation::KeyValue"
PS = "bonsaidb_core::pubsub::PubSub"
SUB = "bonsaidb_core::pubsub::Subscriber"
PERM = "bonsaidb_core::permissions::bonsai::"

NAME = "NAME"   # the database's own name


def P(i, *f):
    """parameter i (1 = self) and a field path"""
    return ("par", i) + f


def E_(x):
    return ("each", x)


def A(*n):
    return "::".join(n)


VIEWREQ = ("VIEW",)

# method -> list of alternatives {variant or None: (action, builder, args) or None (no check needed)}
TABLE = {
    (DB, LL, "apply_transaction"): {
        "Insert": ("Database.Document.Insert", "collection_resource_name", [NAME, P(2, "operations", "*", "collection")]),
        "Update": ("Database.Document.Update", "document_resource_name", [NAME, P(2, "operations", "*", "collection"), P(2, "operations", "*", "command", "Update", "header", "id")]),
        "Overwrite": ("Database.Document.Overwrite", "document_resource_name", [NAME, P(2, "operations", "*", "collection"), P(2, "operations", "*", "command", "Overwrite", "id")]),
        "Delete": ("Database.Document.Delete", "document_resource_name", [NAME, P(2, "operations", "*", "collection"), P(2, "operations", "*", "command", "Delete", "header", "id")]),
        "Check": ("Database.Document.Get", "document_resource_name", [NAME, P(2, "operations", "*", "collection"), P(2, "operations", "*", "command", "Check", "id")]),
    },
    (DB, LL, "get_from_collection"): {None: ("Database.Document.Get", "document_resource_name", [NAME, P(3), P(2)])},
    (DB, LL, "list_from_collection"): {None: ("Database.Document.List", "collection_resource_name", [NAME, P(5)])},
    (DB, LL, "list_headers_from_collection"): {None: ("Database.Document.ListHeaders", "collection_resource_name", [NAME, P(5)])},
    (DB, LL, "count_from_collection"): {None: ("Database.Document.Count", "collection_resource_name", [NAME, P(3)])},
    (DB, LL, "get_multiple_from_collection"): {None: ("Database.Document.Get", "document_resource_name", [NAME, P(3), P(2, "*")])},
    (DB, LL, "compact_collection_by_name"): {None: ("Database.Compact", "collection_resource_name", [NAME, P(2)])},
    (DB, LL, "query_by_name"): {None: ("Database.View.Query", "view_resource_name", [NAME, ("view", 2)])},
    (DB, LL, "query_by_name_with_docs"): {None: ("Database.View.Query", "view_resource_name", [NAME, ("view", 2)])},
    (DB, LL, "reduce_by_name"): {None: ("Database.View.Reduce", "view_resource_name", [NAME, ("view", 2)])},
    (DB, LL, "reduce_grouped_by_name"): {None: ("Database.View.Reduce", "view_resource_name", [NAME, ("view", 2)])},
    (DB, LL, "delete_docs_by_name"): {None: ("Database.View.DeleteDocs", "view_resource_name", [NAME, ("view", 2)])},
    (DB, CN, "list_executed_transactions"): {None: ("Database.Transaction.ListExecuted", "database_resource_name", [NAME])},
    (DB, CN, "last_transaction_id"): {None: ("Database.Transaction.GetLastId", "database_resource_name", [NAME])},
    (DB, CN, "compact"): {None: ("Database.Compact", "database_resource_name", [NAME])},
    (DB, CN, "compact_key_value_store"): {None: ("Database.Compact", "kv_resource_name", [NAME])},
    (DB, KV, "execute_key_operation"): {None: ("Database.KeyValue.ExecuteOperation", "keyvalue_key_resource_name", [NAME, P(2, "namespace"), P(2, "key")])},
    (DB, PS, "create_subscriber"): {None: ("Database.PubSub.CreateSuscriber", "database_resource_name", [NAME])},
    (DB, PS, "publish_bytes"): {None: ("Database.PubSub.Publish", "pubsub_topic_resource_name", [NAME, P(2)])},
    (DB, PS, "publish_bytes_to_all"): {None: ("Database.PubSub.Publish", "pubsub_topic_resource_name", [NAME, ("any",)])},
    ("bonsaidb_local::database::pubsub::Subscriber", SUB, "subscribe_to_bytes"): {None: ("Database.PubSub.SubscribeTo", "pubsub_topic_resource_name", [NAME, P(2)])},
    ("bonsaidb_local::database::pubsub::Subscriber", SUB, "unsubscribe_from_bytes"): {None: ("Database.PubSub.UnsubscribeFrom", "pubsub_topic_resource_name", [NAME, P(2)])},
    (ST, SC, "create_database_with_schema"): {None: ("Server.CreateDatabase", "database_resource_name", [P(2)])},
    (ST, SC, "delete_database"): {None: ("Server.DeleteDatabase", "database_resource_name", [P(2)])},
    (ST, SC, "list_databases"): {None: ("Server.ListDatabases", "bonsaidb_resource_name", [])},
    (ST, SC, "list_available_schemas"): {None: ("Server.ListAvailableSchemas", "bonsaidb_resource_name", [])},
    (ST, SC, "create_user"): {None: ("Server.CreateUser", "bonsaidb_resource_name", [])},
    (ST, SC, "delete_user"): {None: ("Server.DeleteUser", "user_resource_name", [("mentions", 2)])},
    (ST, SC, "set_user_password"): {None: ("Server.SetPassword", "user_resource_name", [("mentions", 2)])},
    (ST, SC, "authenticate"): {
        "Token": ("Server.Authenticate.Token", "authentication_token_resource_name", [P(2, "Token", "id")]),
        "Password": ("Server.Authenticate.PasswordHash", "user_resource_name", [("mentions", 2, "Password", "user")]),
        "TokenChallengeResponse": None,
    },
    (ST, SC, "assume_identity"): {
        "User": ("Server.AssumeIdentity", "user_resource_name", [("mentions", 2, "User")]),
        "Role": ("Server.AssumeIdentity", "role_resource_name", [("mentions", 2, "Role")]),
    },
    (ST, SC, "add_permission_group_to_user"): {None: ("Server.ModifyUserPermissionGroups", "user_resource_name", [("mentions", 2)])},
    (ST, SC, "remove_permission_group_from_user"): {None: ("Server.ModifyUserPermissionGroups", "user_resource_name", [("mentions", 2)])},
    (ST, SC, "add_role_to_user"): {None: ("Server.ModifyUserRoles", "user_resource_name", [("mentions", 2)])},
    (ST, SC, "remove_role_from_user"): {None: ("Server.ModifyUserRoles", "user_resource_name", [("mentions", 2)])},
}

# methods of the same traits that need no permission of their own
UNCHECKED = {
    (DB, CN): {"storage"}, (DB, PS): set(), (DB, KV): set(), (DB, LL): set(),
    ("bonsaidb_local::database::pubsub::Subscriber", SUB): {"receiver"},
    (ST, SC): {"admin", "database"},
}

# what an operation must not do before it is authorised
EFFECT_PREFIX = (
    "nebari::roots::Tree::<", "nebari::roots::Roots::<", "nebari::roots::ExecutingTransaction::<",
    "nebari::transaction::manager::TransactionManager::<", "nebari::roots::TransactionTree::<",
    "circulate::Relay::", "circulate::Subscriber::",
)
EFFECT_EXACT = {
    "bonsaidb_local::database::Context::perform_kv_operation",
    "bonsaidb_local::database::keyvalue::KeyValueState::perform_kv_operation",
    "bonsaidb_local::tasks::TaskManager::compact_collection",
    "bonsaidb_local::tasks::TaskManager::compact_database",
    "bonsaidb_local::tasks::TaskManager::compact_key_value_store",
    "bonsaidb_local::tasks::TaskManager::spawn_integrity_check",
    "bonsaidb_local::tasks::TaskManager::update_view_if_needed",
    "bonsaidb_local::storage::StorageInstance::register_subscriber",
    "bonsaidb_local::storage::StorageInstance::authenticate_inner",
    "bonsaidb_local::storage::StorageInstance::assume_user",
    "bonsaidb_local::storage::StorageInstance::assume_role",
    "bonsaidb_core::document::collection::CollectionDocument::<C>::update",
    "bonsaidb_core::document::collection::CollectionDocument::<C>::delete",
    "bonsaidb_core::document::collection::CollectionDocument::<C>::modify",
}


def is_effect(p):
    if p.startswith(EFFECT_PREFIX) or p in EFFECT_EXACT:
        return True
    return p.startswith("<%s as %s>::" % (SI, SC)) and not p.endswith(("::admin", "::database"))


CHECK = ("bonsaidb_core::connection::has_session::HasSession::check_permission",
         "bonsaidb_core::connection::has_session::HasSession::allowed_to")
OPAQUE = {PERM + n for n in (
    "bonsaidb_resource_name", "database_resource_name", "collection_resource_name", "document_resource_name",
    "view_resource_name", "pubsub_topic_resource_name", "kv_resource_name", "keyvalue_key_resource_name",
    "user_resource_name", "role_resource_name", "authentication_token_resource_name")}


def action_name(t):
    out = []
    while t is not None and t.k == "agg":
        out.append(t.d[1] or short(t.d[0]))
        t = t.d[2][0][1] if t.d[2] else None
    if t is not None and t.k == "con":
        out.append(str(t.d[0]).rsplit("::", 1)[-1])
    return ".".join(out)


def unwrap(t):
    """Strip projections: (root term, field path) with '*' for elements."""
    f = []
    while t.k in ("fld", "elem"):
        f.append(t.d[1] if t.k == "fld" else "*")
        t = t.d[0]
    f.reverse()
    # tuple payload positions say nothing
    return t, tuple(x for x in f if x not in ("0",))


class Rule:
    nonempty = True

    def __init__(self, ctx, TT, root, selfty, spec, name):
        self.ctx, self.TT, self.root, self.selfty, self.spec, self.name = ctx, TT, root, selfty, spec, name
        self.variants = {v for v in spec if v}
        self.neffects = 0
        self.nchecks = 0
        self.seen_variants = set()
        self.reported = set()

    def monitored(self, p):
        return p in CHECK or is_effect(p)

    def isroot(self, t, i):
        return t.k == "par" and t.d[0] == self.root.h and t.d[1] == i or \
            t.k == "upv" and False

    def match(self, t, spec):
        if spec == ("any",):
            return True
        if spec == NAME:
            n = self.TT.norm(t)
            for a in alts(n):
                r, f = unwrap(a)
                if not (self.isroot(r, 1) and f and f[-1] == "name"):
                    return False
            return True
        if spec[0] == "par":
            for a in alts(t):
                n = self.TT.norm(a)
                r, f = unwrap(n)
                if not (self.isroot(r, spec[1]) and f == tuple(spec[2:])):
                    return False
            return True
        if spec[0] == "mentions":
            for x in self.TT.walk(t, 4):
                r, f = unwrap(x)
                if self.isroot(r, spec[1]) and f[:len(spec) - 2] == tuple(spec[2:]):
                    return True
            return False
        if spec[0] == "view":
            # the name of the view looked up by the caller's view name
            ok = False
            for x in self.TT.walk(t, 2):
                if x.k == "par":
                    if self.isroot(x, spec[1]):
                        ok = True
            return ok
        return False

    def grant(self, c, variant):
        """Whether this check is the required one. Returns (ok, why)."""
        req = self.spec.get(variant) if variant else self.spec.get(None)
        if req is None:
            return False, "no check is expected here"
        recv = c.arg(0)
        for a in alts(self.TT.norm(recv)):
            r, f = unwrap(a)
            if not self.isroot(r, 1) or any(x not in ("database",) for x in f):
                return False, "the check is made on %s, not on the caller's handle" % show(a)
        act = c.arg(2)
        names = {action_name(a) for a in alts(act)}
        if names != {req[0]} and {n.split(".", 1)[-1] for n in names} != {req[0]}:
            return False, "action is %s, %s is required" % ("/".join(sorted(names)), req[0])
        res = c.arg(1)
        for a in alts(res):
            if a.k != "call" or a.d[0] != PERM + req[1]:
                return False, "resource is %s, %s is required" % (show(a), req[1])
            if len(a.d[1]) != len(req[2]):
                return False, "resource arguments differ"
            for x, s in zip(a.d[1], req[2]):
                if not self.match(x, s):
                    return False, "resource argument %s is not the %s of the operation" % (show(x), s)
        return True, ""

    def enter(self, ps, c, b):
        if is_effect(b.path) or b.path.endswith(("::admin", "Database::new", "::open_roots", "::database_without_schema")) or b.trname == "drop":
            return False
        granted, denied, variant, why = ps
        if granted and not denied and self.neffects and (variant is not None or not self.variants) and b.h not in self.checking():
            return False        # everything it can reach is covered

    def checking(self):
        """functions from which a permission check can be reached"""
        cg = callgraph(self.ctx.F)
        hit = cg.get("checking")
        if hit is None:
            hit = {h for h, outs in cg["calls"].items() if any(x in outs for x in CHECK)}
            work = list(hit)
            while work:
                for p in cg["nrev"].get(work.pop(), ()):
                    if p not in hit:
                        hit.add(p)
                        work.append(p)
            cg["checking"] = hit
        return hit

    # ps: (granted, denied, variant)
    def call(self, ps, c):
        granted, denied, var, why = ps
        variant = var[0] if var else None
        if c.path in CHECK or c.fn.path in CHECK:
            # only checks made for this operation: a nested operation checks on its own
            self.nchecks += 1
            ok, w = self.grant(c, variant)
            okval = res_ok() if c.fn.path == CHECK[0] else {(): 1}
            badval = res_err() if c.fn.path == CHECK[0] else {(): 0}
            if ok:
                return [((True, denied, var, ""), okval), ((granted, True, var, why), badval)]
            if denied or granted:
                w = why
            return [((granted, denied, var, w), okval), ((granted, True, var, why), badval)]
        if is_effect(c.path) or is_effect(c.fn.path):
            self.neffects += 1
            need = not (self.variants and variant in self.spec and self.spec[variant] is None)
            if self.variants and variant is None and not granted:
                need = True
            if need and not granted:
                k = "%s:effect:%s" % (self.name, short(c.path))
                self.ctx.fail(k, c.where(), "reached without the required check%s" % ((": " + why) if why else ""))
                return []
            if denied:
                self.ctx.fail("%s:after-refusal:%s" % (self.name, short(c.path)), c.where(),
                              "reached although a permission check was refused")
                return []
            return None
        return None

    def branch(self, ps, st, o, src, val, ex):
        if self.variants and src is not None and val is not None:
            fr = st.fr
            ty = None
            t = ex.term(st, ("c", src))
            for a in alts(t):
                r, f = unwrap(a)
                if self.isroot(r, 2) and f in ((), ("operations", "*", "command")):
                    l = fr.body.locals[src[0]]
                    vs = self.vnames(fr, src, a)
                    if vs and val < len(vs):
                        granted, denied, variant, why = ps
                        v = vs[val]
                        if v not in self.spec:
                            return ps
                        if variant is not None and variant[1] != st.fr.id:
                            return ps       # told apart again later, when the operation is carried out
                        self.seen_variants.add(v)
                        # a new element of the batch needs its own check
                        return (granted if (variant is not None and v == variant[0] and not f) else False, denied, (v, st.fr.id), why)
        return ps

    def vnames(self, fr, src, t):
        for p, ad in self.ctx.F.adts.items():
            names = [v[0] for v in ad["variants"]]
            if self.variants <= set(names):
                return names
        return None

    def ret(self, ps, val, st, ex):
        granted, denied, variant, why = ps
        if denied and val.get(()) == 0:
            self.ctx.fail("%s:refusal-hidden" % self.name, "", "a refused permission check can end in a successful return")


class Deleg:
    """check_permission succeeds only without a session or when the session allows it."""

    def __init__(self, ctx, name, events, okret):
        self.ctx, self.name, self.events, self.okret = ctx, name, events, okret
        self.rets = 0

    def monitored(self, p):
        return p in self.events

    def call(self, ps, c):
        ev = self.events.get(c.path) or self.events.get(c.fn.path)
        return [(ps | {l}, v) for l, v in ev(c)]

    def ret(self, ps, val, st, ex):
        self.rets += 1
        self.okret(ps, val)


def check(ctx):
    F = ctx.F
    TT = ctx.terms(opaque=OPAQUE)
    nent = neff = nchk = 0
    for (ty, tr, m), spec in TABLE.items():
        b = ctx.method(ty, tr, m)
        if b is None:
            continue
        nm = "%s::%s" % (short(ty), m)
        r = Rule(ctx, TT, b, ty, spec, nm)
        ex = Explorer(F, TT, r)
        before = len(ctx.obls)
        # nested operations that check for themselves are explored as part of this one only when
        # this operation has no check of its own (query_with_docs, reduce): enter everything
        ex.run(b, (False, False, None, ""))
        ctx.states += ex.nstates
        ctx.funcs |= {F.bodies[h].path for h in ex.entered}
        nent += 1
        neff += r.neffects
        nchk += r.nchecks
        if r.neffects == 0:
            ctx.fail("%s:no-effect-found" % nm, ctx.where(b), "no protected call was found in this operation: the rule does not see it")
        if r.variants and r.seen_variants != r.variants:
            ctx.fail("%s:variants" % nm, ctx.where(b), "not every kind of request is told apart before the check: %s" % sorted(r.variants - r.seen_variants))
        if len(ctx.obls) == before:
            ctx.ob(nm, True, ctx.where(b), "%d check sites and %d protected call sites on explored paths" % (r.nchecks, r.neffects))
    ctx.floor("operations", nent, len(TABLE))
    ctx.floor("check evaluations", nchk, 40)
    # new operations of these traits must be in the table
    for (ty, tr), free in UNCHECKED.items():
        trd = F.traits.get(tr)
        for i in F.impls:
            if i.get("trait") == tr and i.get("self") == ty:
                for name, h, th in i["items"]:
                    bb = F.bodies.get(h)
                    if bb is None or bb.kind != "fn":
                        continue
                    ctx.ob("listed:%s::%s" % (short(ty), name), (ty, tr, name) in TABLE or name in free, ctx.where(bb),
                           "an operation the permission table does not know")
    has_session(ctx, TT)
    names(ctx)


def has_session(ctx, TT):
    F = ctx.F
    HS = "bonsaidb_core::connection::has_session::HasSession"
    SP = "bonsaidb_core::connection::Session"
    # no implementation replaces the default checks
    for i in F.impls:
        if i.get("trait") == HS:
            extra = [n for n, h, th in i["items"] if n in ("check_permission", "allowed_to")]
            # an override is fine only if it is the crate's own delegating one; none exists today
            ctx.ob("HasSession:override:%s" % i.get("self"), not extra, "", "replaces %s" % extra)

    def deleg(path, inner, okv, extra):
        b = ctx.need(path)
        if b is None:
            return

        def sess(c):
            return [("none", {(): 0}), ("some", {(): 1})]

        def inn(c):
            # the arguments are passed on unchanged
            for i in (1, 2):
                t = c.arg(i)
                for a in alts(TT.norm(t)):
                    r, f = unwrap(a)
                    if not (r.k == "par" and r.d[0] == b.h and r.d[1] == i + 1):
                        ctx.fail("%s:args" % path, c.where(), "argument %d of the inner check is %s" % (i, show(a)))
            return [("ok", dict(okv[0])), ("bad", dict(okv[1]))]

        def okret(ps, val):
            v = val.get(())
            good = okv[0][()]
            if v is None:
                ctx.fail("%s:outcome" % path, ctx.where(b), "the outcome does not follow from the session's answer")
            elif v == good:
                ctx.ob("%s:grants" % path, ("ok" in ps) or ("none" in ps and "some" not in ps and extra), ctx.where(b),
                       "succeeds although the session does not allow the action")
            else:
                ctx.ob("%s:refuses" % path, "bad" in ps or "some" in ps, ctx.where(b), "refuses although allowed")
        ev = {i: inn for i in inner}
        if extra:
            ev[HS + "::session"] = sess
        r = Deleg(ctx, path, ev, okret)
        ex = Explorer(F, TT, r)
        ex.run(b, frozenset())
        ctx.states += ex.nstates
        ctx.ob("%s:explored" % path, r.rets >= 2, ctx.where(b), "returns seen: %d" % r.rets)

    R = (res_ok(), res_err())
    B = ({(): 1}, {(): 0})
    deleg(HS + "::check_permission", [SP + "::check_permission", SP + "::allowed_to"], R, True)
    deleg(HS + "::allowed_to", [SP + "::allowed_to", SP + "::check_permission"], B, True)
    perm = "bonsaidb_core::actionable::Permissions"
    perms = [p for b in F.bodies.values() for p in ()]
    deleg(SP + "::check_permission", ["actionable::permissions::Permissions::check", "actionable::permissions::Permissions::allowed_to", SP + "::allowed_to"], R, False)
    deleg(SP + "::allowed_to", ["actionable::permissions::Permissions::allowed_to"], B, False)


NAMES = {
    "bonsaidb_resource_name": ['"bonsaidb"'],
    "database_resource_name": ['"bonsaidb"', 1],
    "collection_resource_name": ['"bonsaidb"', 1, 2],
    "document_resource_name": ['"bonsaidb"', 1, 2, '"document"', 3],
    "view_resource_name": ['"bonsaidb"', 1, "2.collection", '"view"', "2.name"],
    "pubsub_topic_resource_name": ['"bonsaidb"', 1, '"pubsub"', 2],
    "kv_resource_name": ['"bonsaidb"', 1, '"keyvalue"'],
    "keyvalue_key_resource_name": ['"bonsaidb"', 1, '"keyvalue"', 2, 3],
    "user_resource_name": ['"bonsaidb"', '"user"', 1],
    "role_resource_name": ['"bonsaidb"', '"role"', 1],
    "authentication_token_resource_name": ['"bonsaidb"', '"authentication-token"', 1],
}


def names(ctx):
    F = ctx.F
    TT = ctx.terms()
    for n, want in NAMES.items():
        b = ctx.need(PERM + n)
        if b is None:
            continue
        t = TT.norm(TT.awaited(TT.local(TT.frame(b), 0, ()), 0))
        parts = []
        cur = t
        while cur.k == "call" and short(cur.d[0]) in ("and", "named"):
            if short(cur.d[0]) == "named":
                parts.append(cur.d[1][0])
                break
            parts.append(cur.d[1][1])
            cur = cur.d[1][0]
        parts.reverse()
        got = []
        for p in parts:
            if p.k == "str":
                got.append(show(p))
                continue
            ids = set()
            for x in TT.walk(p, 0):
                if x.k == "par" and x.d[0] == b.h:
                    ids.add(str(x.d[1]))
                r, f = unwrap(x)
                if f and r.k == "par" and r.d[0] == b.h:
                    ids.add("%d.%s" % (r.d[1], f[0]))
            dotted = sorted(i for i in ids if "." in i)
            got.append(dotted[0] if dotted and any(isinstance(w, str) and w == dotted[0] for w in want) else (int(sorted(ids)[0]) if ids else "?"))
        ctx.ob("resource-name:%s" % n, got == want, ctx.where(b), "parts are %s, expected %s" % (got, want))
