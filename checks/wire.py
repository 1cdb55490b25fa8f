"""The operations clients can request, as written down in the networking protocol: operation -> request type and its fields
in the order of the operation's parameters. Used from both ends (C03: server, C04: client)."""
from terms import alts, short, show
from explore import Explorer
import fwd

SC, DB = "SC", "DB"
# (kind, method) -> (request, [field of each parameter], {fixed field: value}, field prefix)
OPS = {
    (SC, "create_database_with_schema"): ("CreateDatabase", ["database.name", "database.schema", "only_if_needed"]),
    (SC, "delete_database"): ("DeleteDatabase", ["name"]),
    (SC, "list_databases"): ("ListDatabases", []),
    (SC, "list_available_schemas"): ("ListAvailableSchemas", []),
    (SC, "create_user"): ("CreateUser", ["username"]),
    (SC, "delete_user"): ("DeleteUser", ["user"]),
    (SC, "set_user_password"): ("SetUserPassword", ["user", "password"]),
    (SC, "authenticate"): ("Authenticate", ["authentication"]),
    (SC, "assume_identity"): ("AssumeIdentity", ["0"]),
    (SC, "add_permission_group_to_user"): ("AlterUserPermissionGroupMembership", ["user", "group"], {"should_be_member": True}),
    (SC, "remove_permission_group_from_user"): ("AlterUserPermissionGroupMembership", ["user", "group"], {"should_be_member": False}),
    (SC, "add_role_to_user"): ("AlterUserRoleMembership", ["user", "role"], {"should_be_member": True}),
    (SC, "remove_role_from_user"): ("AlterUserRoleMembership", ["user", "role"], {"should_be_member": False}),
    (DB, "get_from_collection"): ("Get", ["id", "collection"]),
    (DB, "get_multiple_from_collection"): ("GetMultiple", ["ids", "collection"]),
    (DB, "list_from_collection"): ("List", ["ids", "order", "limit", "collection"]),
    (DB, "list_headers_from_collection"): ("ListHeaders", ["0.ids", "0.order", "0.limit", "0.collection"]),
    (DB, "count_from_collection"): ("Count", ["ids", "collection"]),
    (DB, "query_by_name"): ("Query", ["view", "key", "order", "limit", "access_policy"]),
    (DB, "query_by_name_with_docs"): ("QueryWithDocs", ["0.view", "0.key", "0.order", "0.limit", "0.access_policy"]),
    (DB, "reduce_by_name"): ("Reduce", ["view", "key", "access_policy"]),
    (DB, "reduce_grouped_by_name"): ("ReduceGrouped", ["0.view", "0.key", "0.access_policy"]),
    (DB, "delete_docs_by_name"): ("DeleteDocs", ["view", "key", "access_policy"]),
    (DB, "apply_transaction"): ("ApplyTransaction", ["transaction"]),
    (DB, "list_executed_transactions"): ("ListExecutedTransactions", ["starting_id", "result_limit"]),
    (DB, "last_transaction_id"): ("LastTransactionId", []),
    (DB, "create_subscriber"): ("CreateSubscriber", []),
    (DB, "publish_bytes"): ("Publish", ["topic", "payload"]),
    (DB, "publish_bytes_to_all"): ("PublishToAll", ["topics", "payload"]),
    (DB, "execute_key_operation"): ("ExecuteKeyOperation", ["op"]),
    (DB, "compact_collection_by_name"): ("CompactCollection", ["name"]),
    (DB, "compact_key_value_store"): ("CompactKeyValueStore", []),
    (DB, "compact"): ("Compact", []),
}
NET = "bonsaidb_core::networking::"
CONV = {"into_vec", "from", "into", "to_owned", "to_string", "name", "to_vec", "clone", "new", "into_owned", "as_slice", "to_bytes"}


def dbfield(kind, fields):
    if kind != DB:
        return None
    return "0.database" if fields and fields[0].startswith("0.") else "database"


def base(TT, t, depth=0):
    """What a value is, apart from conversions that keep it: a root with field path, or None."""
    if depth > 8:
        return None
    r, f = fwd.unwrap(t)
    if r.k == "call":
        s = short(r.d[0])
        if s in CONV and r.d[1]:
            i = base(TT, r.d[1][0], depth + 1)
            return (i[0], i[1] + f) if i else None
        if s in ("map", "for_each") and len(r.d[1]) == 2 and not f:
            fn = r.d[1][1]
            if fn.k == "fn" and short(fn.d[0]) in CONV:
                return base(TT, r.d[1][0], depth + 1)
            if fn.k == "clo":
                b = TT.F.bodies.get(fn.x[0])
                if b is not None:
                    rt = TT.norm(TT.awaited(TT.local(TT.frame(b, None, None, tuple((fn.x[1], o) for o in fn.x[2])), 0, ()), 0))
                    i = base(TT, rt, depth + 1)
                    if i and i[0].k == "par" and i[0].d[0] == b.h and not i[1]:
                        return base(TT, r.d[1][0], depth + 1)
            return None
        return None
    return r, f


def is_field(TT, t, root, par, field):
    """t is (only) the parameter's field."""
    want = tuple(x for x in field.split(".")) if field else ()
    for a in alts(t):
        i = base(TT, a)
        if i is None:
            return False
        r, f = i
        if not (fwd.is_par(r, root, par) and tuple(x for x in f if x != "*") == want):
            return False
    return True
