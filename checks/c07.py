"""C07: a transaction happens completely or not at all."""
import re

from terms import alts, short, show
from explore import res_ok, res_err
from facts import Const
import fwd
import proto

EXPLAIN = ("Every path from a database's apply_transaction through the operations, the eager view mapper, view invalidation and the "
           "transaction log to the commit is explored over compiler MIR, tracking the storage transaction, each iteration over the "
           "operations, every write, every failure, and the change record and result produced for each operation.")
RULE = ("One storage transaction is opened; every write reached from there goes through it; the commit is reached only when the "
        "iteration over the operations (unreversed, unfiltered) has ended, each operation was executed, its result pushed exactly "
        "once, one change record with the right deleted flag and collection was pushed exactly if it updated or deleted a document, "
        "the change list was stored in the log entry, and no function entered since the transaction began has returned an error. "
        "Success is returned only after the commit, an error only without it. No path bypasses permission to write to a tree directly.")
ASSUME = ["nebari: dropping an ExecutingTransaction without commit rolls it back, commit is atomic and durable.",
          "A CompareSwap closure handed to nebari runs before `modify` returns."]

TTN = "nebari::roots::TransactionTree::<Root, File>::"
TN = "nebari::roots::Tree::<Root, File>::"
ET = "nebari::roots::ExecutingTransaction::<File>::"
WRITES = [TTN + x for x in ("modify", "replace", "remove", "set", "compare_and_swap")]
READS = [TTN + x for x in ("get", "last_key", "get_multiple", "get_range", "scan", "first_key")]
DIRECT = [TN + x for x in ("modify", "replace", "remove", "set", "compare_and_swap")]
BEGIN = ["nebari::roots::Roots::<File>::transaction"]
COMMIT = [ET + "commit"]
SETDATA = ["nebari::transaction::log::LogEntry::<'a>::set_data"]
ROLL = [ET + "rollback"]
BADADAPT = ("rev::Rev", "take::Take", "skip::Skip", "step_by::StepBy", "take_while::TakeWhile", "skip_while::SkipWhile", "filter::Filter<", "filter::Filter ",
            "map_while::MapWhile", "filter_map::FilterMap")
CUTS = ["alloc::vec::Vec::<T, A>::" + x for x in ("truncate", "clear", "pop", "retain", "retain_mut", "swap_remove", "remove", "split_off", "set_len", "extract_if", "dedup", "dedup_by", "dedup_by_key")]
ORDER = ["alloc::slice::<impl [T]>::" + x for x in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key")] + ["core::slice::<impl [T]>::" + x for x in ("sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "rotate_left", "rotate_right")]
OPR = "bonsaidb_core::transaction::OperationResult"
DC = "bonsaidb_core::transaction::DocumentChanges"
COLL = "bonsaidb_core::schema::names::CollectionName"
CD = "bonsaidb_core::transaction::ChangedDocument"


def adapters(c):
    """adapters of an iterator that drop or reorder items"""
    ty = c.fn.args[0].s if c.fn.args else c.path
    return [a for a in BADADAPT if "adapters::" + a in ty] + sorted(set(re.findall(r"\bitertools::(?:\w+::)*((?:Unique|Dedup|Coalesce|Duplicates|TakeWhile|PeekingTakeWhile|WhileSome|Positions|FilterOk|FilterMapOk|Step)\w*)", ty)))


def is_ops(TT, b, t):
    r, f = fwd.unwrap(TT.norm(t))
    return r.k == "par" and r.d[0] == b.h and r.d[1] == 2 and f == ("operations",)


def root_of(ctx):
    return ctx.method("bonsaidb_local::database::Database", "bonsaidb_core::connection::lowlevel::LowLevelConnection", "apply_transaction")


def from_tx(TT, t):
    return any(x.k == "call" and x.d[0] in BEGIN for x in TT.walk(t, 0))


class S(tuple):
    F = ("phase", "open", "acted", "pushed", "changed", "variant", "done", "logged")
    __slots__ = ()

    def __getattr__(self, n):
        return self[S.F.index(n)]

    def set(self, **kw):
        return S(kw.get(n, v) for n, v in zip(S.F, self))


def check(ctx):
    F = ctx.F
    TT = ctx.terms()
    b = root_of(ctx)
    if b is None:
        return
    pushes = {"result": [], "change": []}
    variants = [v[0] if isinstance(v, (list, tuple)) else v for v in F.adts[OPR]["variants"]]
    idx = {n: i for i, n in enumerate(variants)}

    receivers = {OPR: set(), CD: set(), COLL: set()}
    stored, outcome = ([], []), []

    def boundary(ps, c):
        """One operation is over."""
        w = c.where()
        ctx.ob("operation:executed", ps.acted, w, "an operation of the transaction is passed over without being executed")
        pushes["result"].append((ps.pushed, w))
        if ps.variant is not None:
            v = variants[ps.variant]
            want = 0 if v == "Success" else 1
            ctx.ob("operation:recorded", ps.changed == want, w, "an operation with result %s is recorded %s times among the changed documents" % (v, ps.changed))
        else:
            pushes["change"].append((ps.changed, w))

    def step(ps, l, c):
        if l == "begin":
            ctx.ob("one-transaction", ps.phase == 0, c.where(), "a second storage transaction is opened while applying a transaction")
            return [(ps.set(phase=1), res_ok()), (ps.set(phase=3), res_err())]
        if l == "iter":
            if ps.phase != 1 or not is_ops(TT, b, c.arg(0)):
                return None
            bad = adapters(c)
            ctx.ob("in-order", not bad, c.where(), "the operations are not all executed in order: %s" % bad)
            if ps.open:
                boundary(ps, c)
            new = ps.set(open=True, acted=False, pushed=0, changed=0, variant=None)
            return [(new, {(): 1}), (ps.set(open=False, done=True, acted=False, pushed=0, changed=0, variant=None), {(): 0})]
        if l == "direct":
            if ps.phase == 0:
                return None
            ctx.fail("direct-write", c.where(), "writes to a tree outside the storage transaction")
            return [(ps, res_ok()), (ps.set(phase=3), res_err())]
        if l in ("write", "read"):
            ctx.ob("through-transaction", ps.phase == 1, c.where(), "a document or view tree is accessed %s" % (
                "before the transaction began" if ps.phase == 0 else "after the transaction was over"))
            ctx.ob("transaction-tree", from_tx(TT, c.arg(0)), c.where(), "the tree accessed is %s, not one of the transaction's" % show(c.arg(0))[:100])
            return [(ps.set(acted=True), res_ok()), (ps.set(phase=3) if proto.direct(TT, c.fr) else ps, res_err())]
        if l == "log":
            ctx.ob("log:after", ps.phase == 1 and ps.done, c.where(), "the log entry is written before all operations were executed")
            return [(ps.set(logged=True), res_ok()), (ps.set(phase=3), res_err())]
        if l == "commit":
            ctx.ob("commit:no-failure", ps.phase != 3, c.where(), "commits although a step of the transaction failed")
            ctx.ob("commit:all", ps.done and not ps.open, c.where(), "commits before all operations were executed")
            ctx.ob("commit:logged", ps.logged, c.where(), "commits without having stored the changes in the log entry")
            ctx.ob("commit:once", ps.phase in (1, 3), c.where(), "commits twice or without a transaction")
            return [(ps.set(phase=2), res_ok()), (ps.set(phase=4), res_err())]
        if l == "push":
            ty = c.fn.args[0].s if c.fn.args and hasattr(c.fn.args[0], "s") else ""
            if ty in receivers and ps.phase == 1:
                receivers[ty].add((c.fr.body, origin(TT, c.fr.body, c.args[0])))
            if ps.phase != 1 or not ps.open:
                return None
            if ty == OPR:
                return [(ps.set(pushed=min(ps.pushed + 1, 2)), {})]
            if ty == CD:
                return [(ps.set(changed=min(ps.changed + 1, 2)), {})]
            return None
        if l in ("cut", "order"):
            for ty, what in ((CD, "changes"), (OPR, "results")):
                if ps.phase in (1, 2) and c.fn.args and ty in c.fn.args[0].s:
                    ctx.fail("collected:" + ("all" if l == "cut" else "order"), c.where(), "%s %s the %s of the operations" % (short(c.path), "takes away from" if l == "cut" else "reorders", what))
            return None
        return None

    def left(ps, st, val, ex):
        body = st.fr.body
        if val.get(()) == 1 and ps.phase == 1 and body.locals[0].adt == "core::result::Result" and proto.direct(TT, st.fr):
            return ps.set(phase=3)
        return ps

    def branch(ps, st, o, src, val, ex):
        if src is not None and ps.phase == 1 and ps.open and val is not None and ps.variant is None:
            ty = place_ty(st.fr.body, src)
            if ty is not None and ty.adt == OPR:
                return ps.set(variant=val)
        return ps

    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == DC and ps.phase == 1:
            names = [f[0] for f in F.adts[DC]["variants"][0][1]]
            fs = dict(zip(names, rv[6]))
            for i, n in enumerate(("collections", "documents")):
                stored[i].append((st.fr.body, origin(TT, st.fr.body, fs[n]), "%s:%d" % (st.fr.body.file, line)))
        if rv[0] == "agg" and place == (0,) and ps.phase == 2 and rv[2] == "core::result::Result" and rv[3] == 0:
            outcome.append((st.fr.body, origin(TT, st.fr.body, rv[6][0]), "%s:%d" % (st.fr.body.file, line)))
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == CD and ps.phase == 1:
            names = [f[0] if isinstance(f, (list, tuple)) else f for f in F.adts[CD]["variants"][0][1]]
            fs = dict(zip(names, rv[6]))
            d = fs.get("deleted")
            v = ex.opval(st.env, st.fr, d).get(()) if d is not None else None
            if ps.variant is not None and v is not None:
                n = variants[ps.variant]
                if n != "Success":
                    ctx.ob("record:deleted", v == (1 if n == "DocumentDeleted" else 0), "%s:%d" % (st.fr.body.file, line), "a %s result is recorded as deleted=%s" % (n, bool(v)))
            for a in alts(TT.norm(ex.term(st, fs["collection"]))) if "collection" in fs else ():
                if a.k == "agg" and a.d[1] == "Err":
                    continue        # of a function whose success is used
                ok = a.k == "call" and short(a.d[0]) in ("get", "try_from", "entry", "or_insert", "or_insert_with", "len", "index")
                ctx.ob("record:collection", ok or a.k in ("phi",), "%s:%d" % (st.fr.body.file, line), "the collection of a change is %s" % show(a)[:100])
            if "id" in fs:
                t = TT.norm(ex.term(st, fs["id"]))
                ok = all("header.id" in show(a) or show(a).endswith(".id") or "id" in show(a) for a in alts(t))
                ctx.ob("record:id", ok, "%s:%d" % (st.fr.body.file, line), "the document of a change is %s" % show(t)[:100])
        return ps

    def ret(ps, val, st, ex):
        v = val.get(())
        w = ctx.where(b)
        ctx.ob("success:committed", v == 1 or ps.phase == 2, w, "success can be returned without a commit")
        ctx.ob("failure:uncommitted", not (v == 1 and ps.phase == 2), w, "an error can be returned after the transaction was committed")
    ps0 = S((0, False, False, 0, 0, None, False, False))
    r = proto.run(ctx, TT, b, "transaction",
                  {"begin": BEGIN, "commit": COMMIT, "log": SETDATA, "write": WRITES, "read": READS, "direct": DIRECT, "iter": [proto.ITER],
                   "push": ["alloc::vec::Vec::<T, A>::push"], "cut": CUTS, "order": ORDER},
                  step, ps0, need=("begin", "commit", "log", "write"), quiet=("cut", "order"), left=left, branch=branch, assign=assign, ret=ret)
    res = pushes["result"]
    if any(n for n, _ in res):
        for n, w in res:
            ctx.ob("result:once", n == 1, w, "an operation can end with %d results" % n)
    # what is stored and returned is what was collected
    for what, (users, name) in {CD: (stored[1], "change list stored"), COLL: (stored[0], "collection list stored"), OPR: (outcome, "list of results returned")}.items():
        for body, ln, w in users:
            same = {l for bb, l in receivers[what] if bb is body}
            if same:
                ctx.ob("collected:%s" % what.rsplit("::", 1)[1], ln in same, w, "the %s is not the one that was collected" % name)


def origin(TT, b, o, depth=0):
    """the local an operand is moved, copied or borrowed from"""
    if o[0] not in ("c", "m"):
        return None
    l = o[1][0]
    ds = TT.defs(b).get(l, ())
    if depth < 6 and len(ds) == 1 and len(ds[0][0]) == 1 and not (1 <= l <= b.argc):
        rv = ds[0][1]
        if rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1:
            return origin(TT, b, rv[1], depth + 1)
        if rv[0] == "ref" and all(e[0] == "*" for e in rv[2][1:]):
            return origin(TT, b, ("c", rv[2][:1]), depth + 1)
    return l


def place_ty(b, place):
    ty = b.locals[place[0]]
    for e in place[1:]:
        if e[0] == "*":
            ty = ty.t
        else:
            return None
        if ty is None:
            return None
    return ty
