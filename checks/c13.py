"""C13: a unique view never holds entries of two documents under one key."""
from terms import short, show
from explore import res_ok, res_err
import c07
import c10
import c11
import c12
import proto

EXPLAIN = ("The decision for each key of a view is explored over compiler MIR for a view of each update policy, with the comparisons of document ids "
           "and look-ups of existing entries as the facts a path knows; so is apply_transaction up to the start of its storage transaction, "
           "and the question whether a policy is an eager one for each policy.")
RULE = ("In a unique view a mapping is stored under a key only where no entry is left under the key or the first entry's document is the mapping's, "
        "checked for each mapping after the last change of the entry; otherwise an error is recorded and the key left alone. Unique views "
        "count as eager. Before a transaction starts, the version check of every eager view of every operation's collection was found "
        "done or waited for, and so was the mapping each of them started.")
ASSUME = ["C10 (eager views are mapped within the transaction that changes the document), C11 (a recorded error fails the mapping), C07 "
          "(a failed step stores nothing)."]


def check(ctx):
    TT = ctx.terms()
    for b in ctx.needs("ViewEntryUpdater::<'a>::compare_swap_view_entry"):
        c11.entry(ctx, TT, b, unique=True)
    policies(ctx, TT)
    before(ctx, TT)


def policies(ctx, TT):
    F = ctx.F
    pols = [v[0] for v in F.adts[c10.POLICY]["variants"]]
    bs = [b for b in F.bodies.values() if b.path == c10.POLICY + "::is_eager"]
    ctx.floor("is_eager", len(bs), 1)
    for b in bs:
        for i, p in enumerate(pols):
            def ret(ps, val, st, ex, p=p):
                if p in ("Unique", "Eager"):
                    ctx.ob("unique:eager:%s" % p, val.get(()) == 1, ctx.where(b), "a view with the policy %s does not count as eager" % p)
                else:
                    ctx.ob("unique:lazy:%s" % p, val.get(()) == 0, ctx.where(b), "a view with the policy %s counts as eager" % p)
            proto.run(ctx, TT, b, "policy:%s" % p, {}, lambda ps, l, c: None, 0, ret=ret, vals={1: {(): i}})


BF = ("cols", "col", "views", "view", "checks", "maps", "begun", "wait", "mapwait", "own")


def before(ctx, TT):
    """the version checks of eager views before a transaction begins"""
    F = ctx.F
    b = ctx.method(c12.DB, c12.LLC, "apply_transaction")
    if b is None:
        return
    SCHEMA = "bonsaidb_core::schema::"
    HANDLE = "bonsaidb_local::tasks::handle::Handle<"

    def kind(it):
        """what is iterated over: collections, views, checks that were started, mappings these started"""
        if "dyn " + SCHEMA + "view::Serialized" in it:
            return "views"
        if HANDLE + "core::option::Option" in it:
            return "checks"
        if "alloc::rcs::arc::Arc<lock_api::mutex::Mutex" in it or "sync::Arc<lock_api::mutex::Mutex" in it:
            return "maps"
        if SCHEMA + "names::CollectionName" in it or "bonsaidb_core::transaction::Operation" in it:
            return "cols"
        return None

    # state: cols (0 no, 1 iterating, 2 done), col: current collection's views were iterated; pending lists of handles
    sites, opened = set(), {}
    final = [False]

    def step(ps, l, c):
        w = c.where()
        if l == "eager":
            n = show(TT.norm(c.arg(1)))
            ctx.ob("before:collection", "operations" in n or "collection" in n, w, "the views checked are those of %s" % n[:80])
            if ps.own is not None:
                sites.add(ps.own)       # the iteration whose items' collections are looked at
            return [(ps.set(views=1), {})]
        if l == "iter":
            it = c11.item(c)
            k = kind(it)
            bad = [a for a in c07.adapters(c) if not a.startswith(("rev", "peek")) and not (k == "views" and a.startswith("filter_map") and it.count("adapters::filter_map") == 1)]
            if k == "cols":
                if "HashSet" not in it and "set::" not in it and "Operation" not in it and "Vec" not in it:
                    return None
                site = (c.fr.body.h, c.bb)
                if not final[0]:
                    return [(ps.set(own=site), {(): 1}), (ps.set(own=None), {(): 0})]
                if site not in sites:
                    return None
                if ps.cols == 1:
                    ctx.ob("before:each-collection", ps.col, w, "an operation's collection is passed over: its eager views are not checked")
                ctx.ob("before:all-collections", not bad, w, "not all operations' collections are looked at: %s" % bad)
                return [(ps.set(cols=1, col=False), {(): 1}), (ps.set(cols=2), {(): 0})]
            if k == "views":
                if ps.view is not None:
                    ctx.ob("before:each-view", ps.view, w, "an eager view is passed over: its version is not checked")
                ctx.ob("before:all-views", not bad, w, "not all eager views are looked at: %s" % bad)
                return [(ps.set(view=False), {(): 1}), (ps.set(view=None, col=True), {(): 0})]
            if k == "checks":
                if ps.wait is not None:
                    ctx.ob("before:each-check", ps.wait, w, "a version check is not waited for")
                ctx.ob("before:all-checks", not bad, w, "not all version checks are waited for: %s" % bad)
                return [(ps.set(wait=False), {(): 1}), (ps.set(wait=None, checks=False), {(): 0})]
            if k == "maps":
                if ps.mapwait is not None:
                    ctx.ob("before:each-mapping", ps.mapwait, w, "a mapping is not waited for")
                ctx.ob("before:all-mappings", not bad, w, "not all mappings are waited for: %s" % bad)
                return [(ps.set(mapwait=False), {(): 1}), (ps.set(mapwait=None, maps=False), {(): 0})]
            return None
        if l == "contains":
            if not c12.has(TT, c.arg(0), "completed_integrity_checks"):
                return None
            return [(ps.set(view=True), {(): 1}), (ps, {(): 0})]
        if l == "queue":
            if c12.queued(c) != c12.INTEG:
                return None
            return [(ps.set(checks=True, view=True), {})]
        if l == "receive":
            if c12.handle_of(c) == c12.INTEG:
                n = ps.set(wait=True) if ps.wait is not None else ps.set(checks=False)
                return [(n.set(maps=True), {(): 0, (("v", 0), ("f", 0)): 0, (("v", 0), ("f", 0), ("v", 0), ("f", 0)): 1}),
                        (n, {(): 0, (("v", 0), ("f", 0)): 0, (("v", 0), ("f", 0), ("v", 0), ("f", 0)): 0}), (ps, {(): 1}), (ps, {(): 0, (("v", 0), ("f", 0)): 1})]
            n = ps.set(mapwait=True) if ps.mapwait is not None else ps.set(maps=False)
            return [(n, {(): 0, (("v", 0), ("f", 0)): 0}), (ps, {(): 1}), (ps, {(): 0, (("v", 0), ("f", 0)): 1})]
        if l == "take":
            if HANDLE not in c.fr.body.locals[c.dest[0]].s:
                return None
            # whoever took it is waiting for it already
            n = ps.set(mapwait=True) if ps.mapwait is not None else ps.set(maps=False)
            return [(ps, {(): 1}), (n, {(): 0})]
        if l == "begin":
            ctx.ob("before:collections", ps.cols == 2, w, "a transaction begins without the eager views of all operations' collections having been looked at")
            ctx.ob("before:checks", not ps.checks, w, "a transaction begins before the version checks of eager views were waited for")
            ctx.ob("before:mappings", not ps.maps, w, "a transaction begins before the mappings that version checks started were waited for")
            return []
        return None
    saved = list(ctx.obls)
    for final[0] in (False, True):
        ctx.obls[:] = saved
        _run(ctx, TT, b, step)
    ctx.ob("before:sites", bool(sites), ctx.where(b), "no iteration over the operations' collections was found")


def _run(ctx, TT, b, step):
    proto.run(ctx, TT, b, "before", {"eager": ["bonsaidb_core::schema::schematic::Schematic::eager_views_in_collection"], "iter": [proto.ITER], "queue": [c12.JOBS], "receive": c12.RECV, "begin": c07.BEGIN, "take": ["core::option::Option::<T>::take"],
                                     "contains": ["std::collections::hash::set::HashSet::<T, S, A>::contains"]},
              step, c11.rec(BF, cols=0, col=True, views=0, view=None, checks=False, maps=False, wait=None, mapwait=None),
              need=("eager", "iter", "queue", "receive", "begin", "contains"), rets=0, quiet=("take", "iter"), kcap=64,
              stop=lambda x: short(x.path) in ("check_permission", "open_trees_for_transaction"))
