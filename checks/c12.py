"""C12: a view query that asks for it sees every transaction that was committed before it."""
from terms import alts, short, show
from explore import res_ok, res_err
import c07
import c11
import proto

EXPLAIN = ("The paths of each query of a view are explored over compiler MIR for each access policy, down to the jobs they start and wait for "
           "and the comparisons of transaction ids they decide by; so are the jobs that map a view and that check its version, and the "
           "deletion of a database. Comparisons are followed as the set of orders of the two ids that a path leaves possible.")
RULE = ("Before entries are read the view's version was found checked, or the checking job was waited for. With UpdateBefore, additionally no "
        "transaction exists, or the id recorded for this view is not below the last one, or a mapping job was waited for whose id is not; "
        "with UpdateAfter a mapping is requested unless so. A mapping job reads the last id while a transaction holds the list of documents locked "
        "(nebari logs a transaction before its documents can be seen, and unlocks its trees after), and before it reads that list; it reports "
        "and records that id for its own view only. The checking job lists all documents and the new version in one transaction after "
        "dropping entries and document map, never drops the list, and marks itself done only when nothing was to do or that "
        "transaction was committed. Deleting a database drops what is recorded about its views.")
ASSUME = ["The last transaction id nebari reports covers every transaction committed before the call.",
          "A job's handle receives what the job returned."]
POL = "bonsaidb_core::connection::AccessPolicy"
LLC = "bonsaidb_core::connection::lowlevel::LowLevelConnection"
DB = "bonsaidb_local::database::Database"
JOBS = "bonsaidb_local::tasks::manager::Manager::<Key>::lookup_or_enqueue"
RECV = ["bonsaidb_local::tasks::handle::Handle::<T, E>::receive"]
RELS = frozenset("<=>")
OPS = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=", "ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "=", "Ne": "<>"}
FLIP = {"<": ">", ">": "<", "=": "="}
INTEG, MAPPER = "IntegrityScanner", "Mapper"


def check(ctx):
    TT = ctx.terms()
    F = ctx.F
    pols = [v[0] for v in F.adts[POL]["variants"]]
    n = 0
    for name in ("query_by_name", "reduce_grouped_by_name", "delete_docs_by_name"):
        b = ctx.method(DB, LLC, name)
        if b is None:
            continue
        ls = [i for i in range(1, b.argc + 1) if b.locals[i].adt == POL]
        if len(ls) != 1:
            ctx.fail("query:policy", ctx.where(b), "the query takes no access policy")
            continue
        for i, p in enumerate(pols):
            query(ctx, TT, b, name, p, {ls[0]: {(): i}})
            n += 1
    ctx.floor("queries", n, 9)
    mapping(ctx, TT)
    scanner(ctx, TT)
    deletion(ctx, TT)
    current(ctx, TT)


def has(TT, t, name, depth=0):
    return any(x.k == "fld" and x.d[1] == name or x.k == "call" and short(x.d[0]) == name for x in TT.walk(t, depth))


def last(TT, t):
    return has(TT, t, "last_transaction_id") or has(TT, t, "current_transaction_id")


def job(TT, t):
    return has(TT, t, "receive") or has(TT, t, "recv")


def handle_of(c):
    a = c.fn.args
    t = a[0].s if a else ""
    return INTEG if "Option<" in t else MAPPER


def queued(c):
    s = " ".join(a.s for a in c.fn.args if hasattr(a, "s"))
    return INTEG if INTEG in s else MAPPER if MAPPER in s else None


def relation(TT, t):
    """(which id is compared with the last transaction, operator seen from that id)"""
    t = TT.norm(t)
    neg = False
    while t.k == "un" and t.d[0] == "Not":
        neg = not neg
        t = t.d[1][0]
    if t.k == "bin" and t.d[0] in OPS:
        op, (x, y) = OPS[t.d[0]], t.d[1][:2]
    elif t.k == "call" and short(t.d[0]) in OPS and len(t.d[1]) == 2:
        op, (x, y) = OPS[short(t.d[0])], t.d[1]
    else:
        return None
    for l, r, f in ((x, y, False), (y, x, True)):
        if last(TT, r) and not job(TT, r) and not has(TT, r, "view_update_last_status"):
            which = "job" if job(TT, l) else "status" if has(TT, l, "view_update_last_status") else None
            if which:
                o = "".join(FLIP[k] for k in op) if f else op
                s = frozenset(o)
                return which, (RELS - s if neg else s)
    return None


def optional(TT, t):
    """a comparison made by map_or: (which id, operator, what it gives when there is none)"""
    t = TT.norm(t)
    neg = t.k == "un" and t.d[0] == "Not"
    if neg:
        t = t.d[1][0]
    if t.k == "phi" and len(t.d) == 2:
        k = [{"true": 1, "1": 1, "false": 0, "0": 0}.get(str(a.d[0])) for a in t.d if a.k == "con"]
        r = [x for x in (relation(TT, a) for a in t.d) if x is not None]
        if len(k) == 1 and len(r) == 1 and k[0] is not None:
            return (r[0][0], RELS - r[0][1] if neg else r[0][1], 1 - k[0] if neg else k[0])
    if neg:
        return None
    if t.k == "call" and short(t.d[0]) in ("map_or", "is_some_and") and t.d[1][-1].k == "clo":
        d = 0 if len(t.d[1]) == 2 else {"true": 1, "1": 1, "false": 0, "0": 0}.get(str(t.d[1][1].d[0])) if t.d[1][1].k == "con" else None
        r = TT.applied(t.d[1][-1], t.d[1][0])
        r = relation(TT, r) if r is not None else None
        if r is not None and d is not None:
            return r + (d,)
    return None


QF = ("integ", "none", "status", "job", "got", "asked", "read")


def query(ctx, TT, b, name, pol, vals):
    def fresh(ps):
        return ps.none or ps.status <= {"=", ">"} or (ps.got and ps.job <= {"=", ">"})

    def step(ps, l, c):
        w = c.where()
        if l == "queue":
            k = queued(c)
            if k is None:
                return None
            f = [x for x in proto.has_agg(TT, c.arg(1), "bonsaidb_local::views::%s" % ("mapper::Map" if k == MAPPER else "integrity_scanner::IntegrityScan"))]
            for x in f:
                own(ctx, TT, dict(x.d[2]), w, k)
            ctx.ob("job:of-view:%s" % k, bool(f), w, "the job is not given what to work on")
            return [(ps.set(asked=ps.asked or k == MAPPER), {})]
        if l == "receive":
            ok = {(): 0, (("v", 0), ("f", 0)): 0}
            fail = [(ps, {(): 1}), (ps, {(): 0, (("v", 0), ("f", 0)): 1})]
            if handle_of(c) == INTEG:
                return [(ps.set(integ=True), ok)] + fail
            return [(ps.set(got=True, job=RELS), ok)] + fail
        if l == "contains":
            if not has(TT, c.arg(0), "completed_integrity_checks"):
                return None
            tup(ctx, TT, c.arg(1), w)
            return [(ps.set(integ=True), {(): 1}), (ps, {(): 0})]
        if l == "get":
            if not has(TT, c.arg(0), "view_update_last_status"):
                return None
            tup(ctx, TT, c.arg(1), w)
            return [(ps, {(): 1}), (ps, {(): 0})]
        if l == "last":
            return [(ps.set(none=True), res_ok({(): 0})), (ps, res_ok({(): 1})), (ps, res_err())]
        if l == "cmp":
            r = relation(TT, call_term(TT, c))
            if r is None:
                return None
            out = []
            for v, s in ((1, r[1]), (0, RELS - r[1])):
                n = narrow(ps, r[0], s)
                if n is not None:
                    out.append((n, {(): v}))
            return out
        if l == "read":
            roles = c11.tree_roles(TT, c.arg(0))
            if "view_entries_tree_name" not in roles:
                return None
            ctx.ob("%s:%s:checked" % (name, pol), ps.integ, w, "entries of a view are read without its version having been checked")
            if pol == "UpdateBefore":
                ctx.ob("%s:fresh" % name, fresh(ps), w, "entries can be read that do not cover all transactions committed before the query")
            return [(ps.set(read=True), res_ok()), (ps.set(read=True), res_err())]
        return None

    def narrow(ps, which, s):
        n = getattr(ps, which) & s
        return ps.set(**{which: n}) if n else None

    def branch(ps, st, o, src, val, ex):
        if o[0] in ("c", "m") and val is not None and src is None:
            r = relation(TT, ex.term(st, o))
            if r is not None:
                return narrow(ps, r[0], r[1] if val else RELS - r[1])
            r = optional(TT, ex.term(st, o))
            if r is not None and val != r[2]:
                return narrow(ps, r[0], r[1] if val else RELS - r[1])
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 1:
            return
        w = ctx.where(b)
        ctx.ob("%s:%s:read" % (name, pol), ps.read, w, "the query can succeed without entries having been read")
        if pol == "UpdateAfter":
            ctx.ob("%s:after" % name, ps.asked or fresh(ps), w, "no update of the view is requested after the query")
    proto.run(ctx, TT, b, "%s:%s" % (name, pol),
              {"queue": [JOBS], "receive": RECV, "contains": ["std::collections::hash::set::HashSet::<T, S, A>::contains"], "get": ["std::collections::hash::map::HashMap::<K, V, S, A>::get"],
               "last": ["last_transaction_id"], "cmp": ["lt", "le", "gt", "ge"], "read": ["nebari::roots::Tree::<Root, File>::" + x for x in ("scan", "get", "get_multiple", "get_range")]},
              step, c11.rec(QF, integ=False, none=False, status=RELS, job=RELS, got=False, asked=False, read=False),
              need=("read", "queue", "receive", "contains") + (("last", "get") if pol.startswith("Update") else ()), branch=branch, ret=ret, vals=vals, kcap=64, quiet=("cmp", "get"),
              reach_extra=lambda x: proto.uses_field(x, "view_update_last_status"), stop=lambda x: short(x.path) in ("apply_transaction", "check_permission", "get_multiple_from_collection"))


def call_term(TT, c):
    from terms import T
    return T("call", (c.path, tuple(c.arg(i) for i in range(len(c.args)))))


def own(ctx, TT, fs, w, k):
    """a job for this view of this database"""
    if "map" in fs:
        return
    d, v, n = (show(TT.norm(fs[x])) for x in ("database", "collection", "view_name"))
    ctx.ob("job:database:%s" % k, d.endswith("data.name") or d.endswith("scan.database") or d.endswith("map.database"), w, "the job works on database %s" % d)
    ctx.ob("job:collection:%s" % k, "collection" in v, w, "the job works on collection %s" % v)
    ctx.ob("job:view:%s" % k, "view_name" in n, w, "the job works on view %s" % n)


def tup(ctx, TT, t, w):
    es = [x for x in TT.walk(t, 0) if x.k == "agg" and len(x.d[2]) == 3]
    if not es:
        ctx.fail("status:key", w, "what is recorded about a view is looked up under %s" % show(t)[:80])
        return
    d, c, v = (show(TT.norm(y)) for _, y in es[0].d[2])
    ctx.ob("status:database", d.split(".")[-1] in ("name", "database"), w, "what is recorded about a view is looked up for database %s" % d[:80])
    ctx.ob("status:collection", "collection" in c, w, "what is recorded about a view is looked up for collection %s" % c[:80])
    ctx.ob("status:view", "view_name" in v, w, "what is recorded about a view is looked up for view %s" % v[:80])


# ---- the mapping job -----------------------------------------------------------------------------------
def mapping(ctx, TT):
    b = ctx.method(c11.M + "Mapper", "bonsaidb_local::tasks::traits::Job", "execute")
    if b is None:
        return

    def is_last(t):
        vs = [a for a in alts(TT.norm(t)) if not (a.k == "agg" and a.d[1] in ("Err", "None"))]
        return bool(vs) and all(last(TT, a) for a in vs)

    def step(ps, l, c):
        w = c.where()
        if l == "begin":
            h = any(c11.TREES[3] in c11.tree_roles(TT, v) for x in TT.walk(c.arg(1), 0) if x.k == "agg" and "array" in (str(x.d[0]), x.d[1]) for _, v in x.d[2])
            return [(ps[:2] + (ps[2] or h,), res_ok()), ((9,) + ps[1:], res_err())]
        if l == "commit":
            return [(ps[:2] + (False,), res_ok()), ((9, ps[1], False), res_err())]
        if l == "last":
            ctx.ob("mapping:before", ps[0] == 0, w, "the transaction id reported is read after the list of documents")
            ctx.ob("mapping:published", ps[2], w, "the transaction id is read while the list of documents is not locked: a transaction that is in the log, "
                   "but whose documents are not in the list yet, is reported as mapped")
            return [((1,) + ps[1:] if ps[0] == 0 else ps, res_ok({(): 1})), ((9,) + ps[1:], res_err())]
        if l == "range":
            if c11.TREES[3] not in c11.tree_roles(TT, c.arg(0)):
                return None
            ctx.ob("mapping:known", ps[0] in (1, 2), w, "the list of documents is read before the last transaction id")
            return [((2,) + ps[1:], res_ok()), ((9,) + ps[1:], res_err())]
        if l == "insert":
            if not has(TT, c.arg(0), "view_update_last_status"):
                return None
            tup(ctx, TT, c.arg(1), w)
            ctx.ob("mapping:recorded", ps[0] == 2 and is_last(c.arg(2)), w, "the id recorded is %s" % show(TT.norm(c.arg(2)))[:80])
            return [((ps[0], True, ps[2]), {})]
        return None

    def drop(ps, st, place, ty, line, ex):
        return ps[:2] + (False,) if ty is not None and ty.adt == c11.EXT else ps

    def assign(ps, st, place, rv, line, ex):
        if place == (0,) and st.fr.body.h == b.h and rv[0] == "agg" and rv[4] == "Ok":
            ctx.ob("mapping:returned", is_last(ex.term(st, rv[6][0])), "%s:%d" % (b.file, line), "the job reports %s" % show(TT.norm(ex.term(st, rv[6][0])))[:80])
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("mapping:done", ps[0] == 2, ctx.where(b), "the job can succeed without the list of documents having been read")
    proto.run(ctx, TT, b, "mapping", {"last": ["last_transaction_id"], "range": [c07.TN + "get_range", c07.TN + "scan"],
                                      "insert": ["std::collections::hash::map::HashMap::<K, V, S, A>::insert"], "begin": c07.BEGIN, "commit": c07.COMMIT},
              step, (0, False, False), need=("last", "range", "insert", "begin"), assign=assign, ret=ret, drop=drop, tracked=lambda ty: ty.adt == c11.EXT, stop=lambda x: x.path.startswith(c11.DR))


# ---- the version check ---------------------------------------------------------------------------------
SF = ("cur", "del", "phase", "ver", "docs", "bad", "done")


def scanner(ctx, TT):
    b = ctx.method("bonsaidb_local::views::integrity_scanner::IntegrityScanner", "bonsaidb_local::tasks::traits::Job", "execute")
    if b is None:
        return
    info = {}

    def names(t):
        out = []
        for x in TT.walk(t, 0):
            if x.k == "agg" and "array" in (str(x.d[0]), x.d[1]):
                out = [c11.tree_roles(TT, v) for _, v in x.d[2]]
                break
        return out

    def role(t):
        for x in TT.walk(t, 0):
            if x.k == "call" and short(x.d[0]) in ("unlocked_tree", "tree") and "ExecutingTransaction" in x.d[0]:
                i = x.d[1][1]
                if i.k == "con" and isinstance(i.d[0], int) and i.d[0] < len(info.get("trees", ())):
                    r = info["trees"][i.d[0]]
                    return next(iter(r)) if len(r) == 1 else None
        return None

    def step(ps, l, c):
        w = c.where()
        if l == "current":
            ctx.ob("scan:version-of-schema", show(TT.norm(c.arg(1))).endswith("view_version"), w, "the stored version is compared with %s" % show(TT.norm(c.arg(1)))[:60])
            return [(ps.set(cur=True), {(): 1}), (ps.set(cur=False), {(): 0})]
        if l == "delete":
            r = c11.tree_roles(TT, c.arg(1))
            ctx.ob("scan:list-kept", c11.TREES[3] not in r, w, "the list of documents to be mapped is dropped, with documents that are being added to it")
            ctx.ob("scan:documents-kept", "document_tree_name" not in r, w, "documents are dropped")
            n = ps.set(**{"del": ps[1] | r})
            return [(n, res_ok()), (ps.set(bad=True), res_err())]
        if l == "begin":
            info["trees"] = names(c.arg(1))
            ctx.ob("scan:dropped", {c11.TREES[0], c11.TREES[2]} <= ps[1], w, "entries of an earlier version are kept")
            return [(ps.set(phase=1), res_ok()), (ps.set(bad=True), res_err())]
        if l == "write":
            r = role(c.arg(0))
            if r == "view_versions_tree_name":
                v = show(c.arg(2))
                ctx.ob("scan:new-version", "view_version" in v, w, "the version stored is %s" % v[:80])
                ctx.ob("scan:version-key", "view_name" in show(c.arg(1)), w, "the version is stored under %s" % show(c.arg(1))[:80])
                return [(ps.set(ver=ps.phase == 1), res_ok()), (ps.set(bad=True), res_err())]
            if r == c11.TREES[3]:
                t = c.arg(1)
                ctx.ob("scan:all-documents", "document_tree_name" in show_all(TT, t), w, "the documents listed are %s" % show(t)[:80])
                if short(c.path) == "modify":
                    op = show(TT.norm(c.arg(2)))
                    ctx.ob("scan:listed", op.startswith("Operation::Set"), w, "the documents are subjected to %s" % op[:60])
                    a = [x for x in c11_adapters(TT, t)]
                    ctx.ob("scan:every-document", not a, w, "not all documents are listed: %s" % a)
                return [(ps.set(docs=ps.phase == 1), res_ok()), (ps.set(bad=True), res_err())]
            ctx.fail("scan:tree", w, "the tree %s is written" % r)
            return [(ps, res_ok())]
        if l == "commit":
            ctx.ob("scan:together", ps.ver and ps.docs and not ps.bad, w, "the new version is stored without all documents listed, or the other way round")
            return [(ps.set(phase=2), res_ok()), (ps.set(bad=True, phase=3), res_err())]
        if l == "done":
            if not has(TT, c.arg(0), "completed_integrity_checks"):
                return None
            tup(ctx, TT, c.arg(1), w)
            ctx.ob("scan:marked", not ps.bad and (ps.cur or ps.phase == 2), w, "the check is marked as complete before it was completed")
            return [(ps.set(done=True), {})]
        if l == "scan":
            if c11.tree_roles(TT, c.arg(0)) == {"document_tree_name"} or has(TT, c.arg(0), "tree") or True:
                rng = show(TT.norm(c.arg(1)))
                ctx.ob("scan:whole", "RangeFull" in rng, w, "only the range %s of the documents is listed" % rng[:60])
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        return None

    def left(ps, st, val, ex):
        if val.get(()) == 1 and st.fr.body.locals[0].adt == "core::result::Result" and proto.direct(TT, st.fr):
            return ps.set(bad=True)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 1:
            return
        ctx.ob("scan:failure", not ps.bad, ctx.where(b), "the check can succeed although a step failed")
        ctx.ob("scan:complete", ps.cur or ps.phase == 2, ctx.where(b), "the check can succeed without outdated entries having been dropped")
    proto.run(ctx, TT, b, "scan", {"current": ["is_current"], "delete": ["nebari::roots::Roots::<File>::delete_tree"], "begin": c07.BEGIN, "commit": c07.COMMIT,
                                   "write": c07.WRITES + c07.DIRECT, "done": ["std::collections::hash::set::HashSet::<T, S, A>::insert"], "scan": [c07.TN + "scan"]},
              step, c11.rec(SF, **{"del": frozenset(), "cur": None, "phase": 0, "ver": False, "docs": False, "bad": False, "done": False}),
              need=("current", "delete", "begin", "commit", "write", "done"), left=left, ret=ret, stop=lambda x: short(x.path) == "cleanup")


def show_all(TT, t):
    return " ".join(short(x.d[0]) for x in TT.walk(t, 2) if x.k == "call")


def c11_adapters(TT, t):
    return [short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) in ("filter", "filter_map", "skip", "take", "step_by", "take_while", "skip_while", "truncate")]


def current(ctx, TT):
    """a version is current only if both of its parts are"""
    for b in ctx.needs("ViewVersion::is_current"):
        fs = [f for f, _ in ctx.F.adts["bonsaidb_local::views::integrity_scanner::ViewVersion"]["variants"][0][1]]
        pairs = set()

        def branch(ps, st, o, src, val, ex, pairs=pairs):
            x = TT.norm(ex.term(st, o))
            if x.k == "bin" and x.d[0] in ("Eq", "Ne") and val is not None:
                e = (x.d[0] == "Eq") == bool(val)
                for f in fs:
                    if any(show(y).endswith(f) and show(y).startswith("self") for y in x.d[1]):
                        return ps | {(f, e)}
            return ps

        def ret(ps, val, st, ex):
            s = dict(ps)
            v = val.get(())
            last = [f for f in fs if f not in s]
            ok = (v == 0 and False in s.values()) or (v is None and len(last) <= 1 and all(s.values()) and (not last or last[0] in show(TT.norm(ex.term(st, ("c", (0,)))))) ) or (v == 1 and not last and all(s.values()))
            ctx.ob("version:all-fields", ok, ctx.where(b), "a version can be considered current although %s differs" % ", ".join(f for f in fs if not s.get(f)))
        proto.run(ctx, TT, b, "version", {}, lambda ps, l, c: None, frozenset(), branch=branch, ret=ret)


# ---- deleting a database -------------------------------------------------------------------------------
def deletion(ctx, TT):
    b = ctx.method("bonsaidb_local::storage::StorageInstance", "bonsaidb_core::connection::StorageConnection", "delete_database")
    if b is None:
        return
    WANT = frozenset(("completed_integrity_checks", "view_update_last_status"))

    def step(ps, l, c):
        if l == "files":
            return [((True, ps[1]), res_ok()), (ps, res_err())]
        if l == "forget":
            f = {n for n in WANT if has(TT, c.arg(0), n)}
            if not f:
                return None
            return [((ps[0], ps[1] | f), {})]
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("delete:forgotten", ps[1] == WANT, ctx.where(b), "what is recorded in %s about a deleted database's views is kept" % ", ".join(sorted(WANT - ps[1])))
    proto.run(ctx, TT, b, "delete", {"files": ["delete_directory"], "forget": ["retain", "remove", "clear", "take"]}, step, (False, frozenset()), need=("files", "forget"), ret=ret)
