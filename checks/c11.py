"""C11: a mapping run replaces exactly the mapped documents' entries of a view, or fails as a whole."""
from terms import alts, short, show
from explore import res_ok, res_err
import c07
import proto

EXPLAIN = ("The run of a view mapping is explored over compiler MIR from the job that takes the list of invalidated documents, through the "
           "threads it starts (each closure handed to a parallel runner is explored on its own), to the closures that decide what is "
           "stored for each document and key. Iterations are followed to their ends; channels, stored values and failures are tracked.")
RULE = ("One storage transaction per chunk: documents mapped are those taken off the list, in it they are mapped and removed from the list, and "
        "only if all that succeeded is it committed; trees are used in their own roles. Every document handed to the threads is sent on, "
        "with its contents only when found under its id; every document received is mapped if present, and recorded once with its keys "
        "and mappings; every key it no longer has is cleaned of exactly its entries; every new mapping replaces the document's entry "
        "under that key or is added; the reduced value is computed after the last change; failures reach the caller, which looks at "
        "every thread's result; each channel's receiver is owned by the thread that uses it, and sends to a closed channel do not panic.")
ASSUME = ["nebari calls the CompareSwap closure for every key given to modify.", "easy_parallel runs every closure given and returns every result.",
          "flume: recv fails only once all senders are gone, send fails once all receivers are gone."]
M = "bonsaidb_local::views::mapper::"
DR = M + "DocumentRequest"
SER = "bonsaidb_core::schema::view::Serialized::"
AB = "arc_bytes::ArcBytes<'_>"
MAPS = "alloc::vec::Vec<bonsaidb_core::schema::view::map::Serialized>"
ENT = "bonsaidb_local::views::EntryMapping"
PAR = "easy_parallel::Parallel::<'a, T>::"
KO = "nebari::tree::btree_entry::KeyOperation"
BM = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"
TREES = ("view_document_map_tree_name", "document_tree_name", "view_entries_tree_name", "view_invalidated_docs_tree_name")
PUSH = "alloc::vec::Vec::<T, A>::push"


def item(c):
    return (c.fn.args[0].s if c.fn.args else "") + " " + (c.fr.body.locals[c.dest[0]].s if len(c.dest) == 1 else "")


def targ(c, i=0):
    return c.fn.args[i].s if len(c.fn.args) > i and hasattr(c.fn.args[i], "s") else ""


def rec(fields, **d):
    class R(tuple):
        __slots__ = ()

        def __getattr__(self, n):
            return self[fields.index(n)]

        def set(self, **kw):
            return R(kw.get(n, v) for n, v in zip(fields, self))
    return R(d.get(f) for f in fields)


def check(ctx):
    TT = ctx.terms()
    roots = run_job(ctx, TT)
    threads(ctx, TT)
    for b in ctx.needs("ViewEntryUpdater::<'a>::compare_swap_view_entry"):
        entry(ctx, TT, b)
    made = [(b, TT.op(TT.frame(b), rv[6][rv[5].index("has_reduce")])) for b in ctx.F.bodies.values() if b.path.startswith(M) for bl in b.blocks if bl
            for _, rv, _ in bl[0] if rv[0] == "agg" and rv[1] == "adt" and rv[2] == M + "ViewEntryUpdater" and "has_reduce" in rv[5]]
    for b, t in made:
        ctx.ob("entry:has-reduce", show(t) in ("1", "true"), ctx.where(b), "has_reduce starts as %s" % show(t))


EXT = "nebari::roots::ExecutingTransaction"


def tree_roles(TT, t):
    return {short(y.d[0]) for y in TT.walk(t, 2) if y.k == "call" and short(y.d[0]).endswith("tree_name")}


# ---- the job ----------------------------------------------------------------------------------------
def run_job(ctx, TT):
    b = ctx.method(M + "Mapper", "bonsaidb_local::tasks::traits::Job", "execute")
    if b is None:
        return
    F = ctx.F
    info = {}

    def role(c, t):
        """the tree name behind a transaction's tree"""
        for x in TT.walk(t, 0):
            if x.k == "call" and short(x.d[0]) in ("unlocked_tree", "tree") and "ExecutingTransaction" in x.d[0]:
                i = x.d[1][1]
                n = i.d[0] if i.k == "con" and isinstance(i.d[0], int) else None
                for y in TT.walk(x.d[1][0], 0):
                    if y.k == "call" and y.d[0] in c07.BEGIN and n is not None:
                        ts = trees_of(y.d[1][1])
                        return ts[n] if n < len(ts) else None
        return None

    def trees_of(t):
        out = []
        for x in TT.walk(t, 0):
            if x.k == "agg" and str(x.d[0]).startswith("array") or x.k == "agg" and x.d[1] == "array":
                es = x.d[2]
                out = [tree_roles(TT, e[1] if isinstance(e, tuple) else e) for e in es]
                break
        return [next(iter(o)) if len(o) == 1 else None for o in out]

    def step(ps, l, c):
        w = c.where()
        if l == "begin":
            ctx.ob("job:one-at-a-time", ps.phase == 0, w, "a transaction is opened while another is open")
            return [(ps.set(phase=1, empty=None), res_ok()), (ps.set(bad=True), res_err())]
        if l == "map":
            ctx.ob("job:within", ps.phase == 1, w, "documents are mapped outside of the transaction")
            for x in proto.has_agg(TT, c.arg(0), DR):
                fs = dict(x.d[2])
                info["ids"] = TT.norm(fs["document_ids"])
                for f, want in (("document_map", TREES[0]), ("documents", TREES[1]), ("view_entries", TREES[2])):
                    r = role(c, fs[f])
                    ctx.ob("job:tree:%s" % f, r == want, w, "%s of the mapping is the tree %s" % (f, r))
                v = TT.norm(fs["view"])
                ctx.ob("job:view", (any(
                    y.k == "fld" and y.d[1] == "views_by_name" for y in TT.walk(v, 0)) or "view_by_name(" in show(v)) and "view_name" in show(v), w, "the view mapped is %s" % show(v)[:80])
            return [(ps.set(phase=2), res_ok()), (ps.set(bad=True), res_err())]
        if l == "write":
            ctx.ob("job:through-transaction", ps.phase in (1, 2), w, "a tree is written outside of the transaction")
            r = role(c, c.arg(0))
            if r == TREES[3]:
                op = TT.norm(c.arg(2)) if short(c.path) == "modify" else None
                ctx.ob("job:removed", short(c.path) == "remove" or (op is not None and "Remove" in show(op)), w, "the list of invalidated documents is subjected to %s" % (
                    show(op)[:60] if op is not None else short(c.path)))
                ids = TT.norm(c.arg(1))
                ctx.ob("job:same-documents", ids == info.get("ids"), w, "documents %s are removed from the list, %s were mapped" % (
                    show(ids)[:80], show(info["ids"])[:80] if info.get("ids") is not None else None))
                return [(ps.set(phase=3), res_ok()), (ps.set(bad=True), res_err())]
            ctx.fail("job:tree", w, "the tree %s is written by the mapping job" % r)
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "commit":
            ctx.ob("job:commit", ps.phase == 3 and not ps.bad, w, "commits although %s" % ("a step failed" if ps.bad else "documents were not mapped and taken off the list"))
            return [(ps.set(phase=0), res_ok()), (ps.set(bad=True, phase=0), res_err())]
        if l == "range":
            ctx.ob("job:list", tree_roles(TT, c.arg(0)) == {TREES[3]}, w, "the documents to map are taken from the tree %s" % sorted(tree_roles(TT, c.arg(0))))
            a = show(TT.norm(c.arg(1)))
            ctx.ob("job:whole-list", "RangeFull" in a, w, "only the range %s of the list is mapped" % a[:60])
            return [(ps.set(read=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "empty":
            if "ArcBytes" not in targ(c) or ps.phase != 0:
                return None
            return [(ps.set(empty=True), {(): 1}), (ps.set(empty=False), {(): 0})]
        if l == "mark":
            ctx.ob("job:marked", ps.read and ps.empty and ps.phase == 0 and not ps.bad, w, "the view is marked as up to date before all listed documents were mapped")
            return [(ps.set(marked=True), {})]
        return None

    def left(ps, st, val, ex):
        if val.get(()) == 1 and st.fr.body.locals[0].adt == "core::result::Result" and proto.direct(TT, st.fr):
            return ps.set(bad=True)
        return ps

    def drop(ps, st, place, ty, line, ex):
        # rolled back; only one in which nothing was done may be
        if ty is not None and ty.adt == EXT and ps.phase == 1:
            return ps.set(phase=0)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 1:
            return
        ctx.ob("job:failure", not ps.bad, ctx.where(b), "the job can succeed although a step failed")
        ctx.ob("job:all", ps.read and ps.empty is True, ctx.where(b), "the job can succeed without all listed documents having been mapped")
    proto.run(ctx, TT, b, "job", {"begin": c07.BEGIN, "commit": c07.COMMIT, "write": c07.WRITES + c07.DIRECT, "map": [DR + "::<'a>::map"],
                                  "range": [c07.TN + "get_range", c07.TN + "scan"], "empty": ["alloc::vec::Vec::<T, A>::is_empty"],
                                  "mark": ["mark_view_updated"]},
              step, rec(("phase", "bad", "read", "empty", "marked"), phase=0, bad=False, read=False, empty=None, marked=False),
              need=("begin", "commit", "write", "map", "range"), left=left, ret=ret, drop=drop, tracked=lambda ty: ty.adt == EXT, quiet=("empty",), stop=lambda x: x.path.startswith(DR))


# ---- the threads ------------------------------------------------------------------------------------
FLD = ("chunk", "sent", "idopen", "ids", "stop",            # handing out
       "batch", "doc", "has", "mapped", "pushed",          # mapping
       "res", "tup", "maps", "keys", "keysall", "mapsall", "newopen",   # gathering
       "out", "dm", "ve", "clear", "diffed", "diff", "bad")


def threads(ctx, TT):
    F = ctx.F
    bs = ctx.needs(DR + "::<'a>::map")
    for b in bs:
        work, seen = [(b, None)], set()
        total = {}
        swaps = {}
        while work:
            root, clo = work.pop()
            if root.h in seen:
                continue
            seen.add(root.h)
            fr = None
            if clo is not None:
                h, cf, ops = clo
                fr = TT.frame(root, cf, None, tuple((cf, o) for o in ops), ("t", h, cf.id))
                captures(ctx, root, cf, ops)
            one_thread(ctx, TT, root, fr, clo, work, total, swaps)
        for l in ("spawn", "run", "send", "recv", "map", "write", "difference"):
            ctx.ob("threads:%s" % l, total.get(l, 0) > 0, ctx.where(b), "no `%s` step was found in the mapping threads" % l)
        for h, x in swaps.items():
            doc_swap(ctx, TT, F.bodies[h], x)


def captures(ctx, root, cf, ops):
    for i, o in enumerate(ops):
        if o[0] in ("c", "m") and len(o[1]) == 1:
            ty = cf.body.locals[o[1][0]]
            if ty.k == "ref" and ty.peel().adt in ("flume::Receiver", "flume::Sender") and "OneBatch" not in ty.s:
                # shared between several runs of one closure: the batch's own channel, whose sender ends with the batch
                if ty.peel().adt == "flume::Receiver" and "core::option::Option<" in ty.s:
                    continue
                ctx.fail("channel:owned", ctx.where(root), "a thread only borrows %s: the other side keeps waiting when this thread fails" % ty.peel().s[:60])
            else:
                ctx.ob("channel:owned", True, ctx.where(root))


def one_thread(ctx, TT, root, fr, clo, work, total, swaps):
    F = ctx.F
    name = root.path.split("mapper::")[-1].replace("DocumentRequest::<'a>::", "")

    def seti(ps, **kw):
        return ps.set(**kw)

    def endtup(ps, w):
        """one mapped document has been gathered"""
        if ps.tup:
            ctx.ob("gather:recorded", ps.maps == 1 and ps.keys == 1, w, "a mapped document's keys are not recorded")
            ctx.ob("gather:keys", ps.keysall, w, "not all keys of a mapped document are scheduled for updating")
            ctx.ob("gather:mappings", ps.mapsall, w, "not all mappings of a document are passed on")

    def step(ps, l, c):
        w = c.where()
        total[l] = total.get(l, 0) + 1
        if l == "spawn":
            for x in c.ex.callables(c.st, c.fr, c.args[-1]):
                work.append((F.bodies[x[0]], x))
            return [(ps, {})]
        if l == "run":
            return [(ps, {})]
        if l == "iter":
            it = item(c)
            bad = [a for a in c07.adapters(c) if not a.startswith("rev")]
            end = ("iter", {(): 0})
            if "slice::iter::Chunks" in it:
                ctx.ob("hand-out:all", not bad, w, "not all documents are handed out: %s" % bad)
                if ps.chunk:
                    ctx.ob("hand-out:sent", ps.sent and ps.ids == 2, w, "documents are passed over without being handed to the mapping threads")
                n = ps.set(chunk=True, sent=False, ids=0, idopen=None)
                return [(n, {(): 1}), (ps.set(chunk=False, ids=0, stop=True), {(): 0})]
            if ps.chunk and "slice::iter::Iter<" in it and "ArcBytes" in it:
                ctx.ob("hand-out:all", not bad, w, "not all documents are handed out: %s" % bad)
                ctx.ob("hand-out:each", ps.idopen is None, w, "a document is passed over without being handed to the mapping threads")
                return [(ps.set(idopen=0, ids=1), {(): 1}), (ps.set(idopen=None, ids=2), {(): 0})]
            if "core::option::Option<core::result::Result<" in it or "IntoIter<core::result::Result<" in it:
                if ps.res:
                    ctx.ob("results:all", ps.res == 2 or root is bs_root(root), w, "a thread's result is passed over")
                ctx.ob("results:each", not bad, w, "not all threads' results are looked at: %s" % bad)
                return [(ps.set(res=1), {(): 1}), (ps.set(res=3, out=1 if ps.batch else ps.out), {(): 0})]
            if "IntoIter<(" in it and MAPS in it:
                ctx.ob("gather:all", not bad, w, "not all mapped documents are gathered: %s" % bad)
                endtup(ps, w)
                return [(ps.set(tup=True, maps=0, keys=0, keysall=False, mapsall=False, newopen=None), {(): 1}), (ps.set(tup=False, res=2), {(): 0})]
            if ps.tup and "OwnedBytes" in it and "set::" in it:
                ctx.ob("gather:keys", not bad and ps.newopen is not True, w, "not all keys of a mapped document are scheduled for updating")
                return [(ps.set(newopen=True), {(): 1}), (ps.set(newopen=None, keysall=True), {(): 0})]
            if ps.tup and "view::map::Serialized" in it:
                ctx.ob("gather:mappings", not bad and ps.newopen is not True, w, "not all mappings of a document are passed on")
                return [(ps.set(newopen=True), {(): 1}), (ps.set(newopen=None, mapsall=True), {(): 0})]
            if "IntoIter<(%s, %s)>" % (AB, AB) in it:
                if ps.clear:
                    ctx.ob("clean:each", ps.diffed == 2, w, "a document's earlier keys are not compared with its new ones")
                ctx.ob("clean:all", not bad, w, "not all documents' earlier keys are looked at: %s" % bad)
                return [(ps.set(clear=1, diffed=0, diff=None), {(): 1}), (ps.set(clear=0, dm=2), {(): 0})]
            if "Difference<" in it:
                if ps.diff is not None:
                    ctx.ob("clean:key", ps.diff == (1, 1), w, "a key the document no longer has is not scheduled for cleaning")
                ctx.ob("clean:keys", not bad, w, "not all keys the document no longer has are cleaned")
                return [(ps.set(diff=(0, 0)), {(): 1}), (ps.set(diff=None, diffed=2), {(): 0})]
            return None
        if l == "send":
            ty = targ(c)
            if "Receiver<" in ty:
                ctx.ob("hand-out:batch", ps.chunk and not ps.sent, w, "a batch is sent twice or without documents")
                return [(ps.set(sent=True), res_ok()), (ps.set(stop=True, ids=2, sent=True), res_err())]
            if "core::option::Option<" in ty:
                v = c.ex.opval(c.st.env, c.fr, c.args[1])
                some = v.get((("f", 1),))
                if some == 1:
                    ctx.ob("hand-out:contents", ps.has == 1, w, "contents are handed out without having been found under the document's id")
                ctx.ob("hand-out:id", ps.idopen is not None, w, "something other than the documents to be mapped is handed out")
                return [(ps.set(idopen=None, has=None), res_ok()), (ps.set(stop=True, idopen=None, ids=2), res_err())]
            if M + "Batch" in ty:
                ctx.ob("gather:sent", ps.res == 3, w, "a batch is passed on before all its documents were gathered")
                return [(ps.set(batch=False, out=2), res_ok()), (ps.set(batch=False, out=2, stop=True), res_err())]
            return None
        if l == "eqid":
            if ps.idopen is not None:
                neg = short(c.path) == "ne"
                return [(ps.set(has=1), {(): int(not neg)}), (ps.set(has=0), {(): int(neg)})]
            return None
        if l == "recv":
            ty = targ(c)
            if "Receiver<" in ty:
                ctx.ob("gather:each-batch", not ps.batch, w, "a batch is dropped")
                return [(ps.set(batch=True, res=0, tup=False), res_ok()), (ps.set(batch=False), res_err())]
            if "core::option::Option<" in ty:
                ctx.ob("map:each", not ps.doc or ps.pushed == 1, w, "a document received is not recorded exactly once")
                a = {(): 0}
                a[(("v", 0), ("f", 0), ("f", 1))] = 1
                z = {(): 0}
                z[(("v", 0), ("f", 0), ("f", 1))] = 0
                return [(ps.set(doc=True, has=1, mapped=False, pushed=0), a), (ps.set(doc=True, has=0, mapped=False, pushed=0), z), (ps.set(doc=False), res_err())]
            if M + "Batch" in ty:
                ctx.ob("save:each", ps.out in (None, 3), w, "a batch of mapped documents is not stored")
                return [(ps.set(out=1, dm=0, ve=0, clear=0, diff=None), res_ok()), (ps.set(out=None), res_err())]
            return None
        if l == "map":
            ctx.ob("map:present", ps.doc and ps.has == 1, w, "the map function is called for a document that was not there")
            return [(ps.set(mapped=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "push":
            ty = targ(c)
            if ps.doc and ty.startswith("(") and MAPS in ty:
                ctx.ob("map:mapped", ps.mapped == (ps.has == 1), w, "a document %s" % ("is recorded without having been mapped" if ps.has else "that is not there is mapped"))
                return [(ps.set(pushed=min(ps.pushed + 1, 2)), {})]
            if ps.tup and ty == MAPS[len("alloc::vec::Vec<"):-1]:
                t = show(TT.norm(c.arg(0)))
                ctx.ob("gather:under-key", "key" in t, w, "a mapping is passed on under %s" % t[-60:])
                return [(ps.set(newopen=False), {})]
            return None
        if l == "insert":
            ty = " ".join(t.s for t in c.fn.args if hasattr(t, "s"))
            if ps.tup:
                if short(c.path) == "insert" and "BTreeMap" in c.path:
                    if "HashSet" in ty:
                        return [(ps.set(keys=min(ps.keys + 1, 2)), {})]
                    if ty.startswith(AB + " " + AB):
                        return [(ps.set(maps=min(ps.maps + 1, 2)), {})]
                elif "BTreeSet" in c.path and ps.newopen is True:
                    return [(ps.set(newopen=False), {})]
            elif ps.diff is not None:
                if "BTreeSet" in c.path:
                    return [(ps.set(diff=(1, ps.diff[1])), {})]
                if "HashSet" in c.path:
                    return [(ps.set(diff=(ps.diff[0], 1)), {})]
            return None
        if l == "extend":
            if ps.tup and ("BTreeSet" in targ(c) or "BTreeSet" in c.path):
                return [(ps.set(keysall=True), {})]
            return None
        if l == "difference":
            a, z = show(TT.norm(c.arg(0))), show(TT.norm(c.arg(1)))
            ctx.ob("clean:direction", "deserialize" in a and "deserialize" not in z, w, "keys of %s not in %s are cleaned" % (a[:40], z[:40]))
            return [(ps.set(diffed=1), {})]
        if l == "write":
            r = show(c.arg(0))
            op = c.arg(2) if len(c.args) > 2 else None
            for x in TT.walk(op, 1) if op is not None else ():
                if x.k == "clo" and x.x[0] in F.bodies:
                    cb = F.bodies[x.x[0]]
                    if reaches_entry(F, cb):
                        ctx.ob("save:order", ps.out == 1 and ps.dm == 2, w, "entries are updated before it is known which earlier keys to clean")
                        sl = slots(F, c)
                        good = [((c.fr, q), {(): 0}) for q in sl]
                        fail = [((c.fr, q), {(): 1}) for q in sl]
                        return [(ps.set(ve=1, out=3), res_ok(), good), (ps.set(bad=True), res_err())] + ([(ps.set(bad=True), res_ok(), fail)] if sl else [])
                    swaps[x.x[0]] = x.x
            ctx.ob("save:batch", ps.out == 1, w, "the record of documents' keys is written outside of a batch")
            return [(ps.set(dm=1), res_ok()), (ps.set(bad=True), res_err())]
        return None

    def bs_root(r):
        return r if clo is None else None

    def left(ps, st, val, ex):
        if val.get(()) == 1 and st.fr.body.locals[0].adt == "core::result::Result" and proto.direct(TT, st.fr):
            return ps.set(bad=True)
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(root)
        if val.get(()) == 1:
            return
        ctx.ob("%s:failure" % name, not ps.bad, w, "a mapping thread can succeed although a step failed")
        ctx.ob("hand-out:finished", not ps.chunk or ps.stop, w, "handing out documents can end early")
        ctx.ob("map:last", not ps.doc or ps.pushed == 1, w, "a mapping thread can end without recording a document")
        ctx.ob("gather:last", not ps.batch or ps.stop, w, "a batch can be dropped")
        ctx.ob("save:last", ps.out in (None, 2) or (ps.out == 1 and clo is None), w, "storing can end without the last batch stored")
        if clo is None:
            ctx.ob("results:seen", ps.res == 3, w, "mapping can succeed without all threads' results having been looked at")

    def branch(ps, st, o, src, val, ex):
        """a result taken from the list of results is told apart"""
        if ps.res == 1 and src is not None and val is not None:
            ty = c07.place_ty(st.fr.body, src)
            if ty is not None and ty.adt == "core::result::Result":
                return ps.set(bad=ps.bad or val == 1, res=ps.res if val == 1 else (2 if clo is None else 1))
            if ty is not None and ty.adt == "core::ops::control_flow::ControlFlow" and clo is None:
                return ps.set(bad=ps.bad or val == 1, res=ps.res if val == 1 else 2)
        return ps
    ps0 = rec(FLD, chunk=False, sent=False, idopen=None, ids=0, stop=False, batch=False, doc=False, has=None, mapped=False, pushed=0,
              res=0, tup=False, maps=0, keys=0, keysall=False, mapsall=False, newopen=None, out=None, dm=0, ve=0, clear=0, diffed=0, diff=None, bad=False)
    proto.run(ctx, TT, root, name, {"spawn": [PAR + "add", PAR + "each"], "run": [PAR + "run"], "iter": [proto.ITER], "send": ["flume::Sender::<T>::send"],
                                    "recv": ["flume::Receiver::<T>::recv"], "map": [SER + "map"], "push": [PUSH],
                                    "insert": [BM + "insert", "alloc::collections::btree::set::BTreeSet::<T, A>::insert", "std::collections::hash::set::HashSet::<T, S, A>::insert"],
                                    "extend": ["core::iter::traits::collect::Extend::extend", "extend"],
                                    "difference": ["std::collections::hash::set::HashSet::<T, S, A>::difference"], "write": c07.WRITES, "eqid": ["eq", "ne"]},
              step, ps0, frame=fr, left=left, ret=ret, branch=branch, quiet=("eqid", "insert", "extend", "push"))
    unwrapped_sends(ctx, root)


def slots(F, c):
    """where the closure that updates entries leaves its error"""
    out = []
    for l, ty in enumerate(c.fr.body.locals):
        pt = ty.peel()
        if pt.adt and pt.adt.startswith(M) and pt.adt in F.adts and len(F.adts[pt.adt]["variants"]) == 1:
            for i, (f, t) in enumerate(F.adts[pt.adt]["variants"][0][1]):
                if "error::Error" in t:
                    out.append((l,) + ((("*",),) if ty.k == "ref" else ()) + (("f", i, f),))
    return out


def reaches_entry(F, cb):
    from explore import callgraph
    cg = callgraph(F)
    seen, work = {cb.h}, [cb.h]
    while work:
        h = work.pop()
        if any(p == SER + "reduce" for p in cg["calls"].get(h, ())):
            return True
        for n in cg["edges"].get(h, ()):
            if n not in seen and n in F.bodies and "views::mapper" in F.bodies[n].path:
                seen.add(n)
                work.append(n)
    return False


def unwrapped_sends(ctx, root):
    """the result of a send is not unwrapped"""
    F = ctx.F
    for b in F.bodies.values():
        if "views::mapper" not in b.path or b.file != root.file:
            continue
        for bl in b.blocks:
            if bl is None:
                continue
            t = bl[1]
            if t[0] == "call" and t[1][0] == "k" and short(getattr(t[1][1], "path", "")) in ("unwrap", "expect") and "SendError" in " ".join(
                    a.s for a in t[1][1].args if hasattr(a, "s")):
                ctx.fail("channel:panic", "%s:%d (%s)" % (b.file, t[5], b.path), "a send to a thread that has failed panics rather than letting its error be returned")
    ctx.ob("channel:panic", True, ctx.where(root))


# ---- what is stored per document ----------------------------------------------------------------------
def doc_swap(ctx, TT, cb, x):
    h, cf, ops = x
    fr = TT.frame(cb, cf, None, tuple((cf, o) for o in ops), ("t", h, cf.id))

    def step(ps, l, c):
        if l == "push":
            return [((ps[0], ps[1] + 1, ps[2]), {})]
        return None

    def branch(ps, st, o, src, val, ex):
        if src is not None and src[0] == cb.argc and val is not None:
            return (bool(val),) + ps[1:]
        return ps

    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == KO:
            return ps[:2] + (rv[4],)
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(cb)
        ctx.ob("document:stored", ps[2] == "Set", w, "the keys of a mapped document are not stored but subjected to %s" % ps[2])
        ctx.ob("document:earlier", ps[0] is not None and ps[1] == int(ps[0]), w, "a document's earlier keys are not kept for cleaning")
    proto.run(ctx, TT, cb, "document", {"push": [PUSH]}, step, (None, 0, None), frame=fr, branch=branch, assign=assign, ret=ret, need=("push",))


# ---- what is stored per key ---------------------------------------------------------------------------
EFL = ("clean", "retained", "new", "item", "dup", "placed", "changed", "reduced", "noreduce", "empty", "more", "op", "err", "failed", "conflict", "pol", "scan", "half")


def entry(ctx, TT, b, unique=False):
    """The decision for one key of the view; with `unique`, only what concerns unique views."""
    F = ctx.F
    pols = [v[0] for v in F.adts["bonsaidb_core::schema::view::ViewUpdatePolicy"]["variants"]]
    uniq = pols.index("Unique")
    verr = [v[0] for v in F.adts["bonsaidb_core::schema::view::Error"]["variants"]]
    unimpl = [v[0] for v in F.adts["bonsaidb_core::Error"]["variants"]].index("ReduceUnimplemented")

    errf = {f for f, t in F.adts[M + "ViewEntryUpdater"]["variants"][0][1] if "error::Error" in t} if M + "ViewEntryUpdater" in F.adts else set()

    def failure(v, inner):
        i = verr.index(v) if v else [k for k, n in enumerate(verr) if n != "Core"][0]
        d = {(): 1, (("v", 1), ("f", 0)): i}
        if v:
            d[(("v", 1), ("f", 0), ("v", i), ("f", 0))] = inner
        return d

    def ob(key, ok, w, d):
        if key.startswith("unique:") == unique:
            ctx.ob(key, ok, w, d)

    def place(ps, w):
        ob("unique:checked", ps.pol != uniq or ps.conflict is False, w, "a mapping is stored in a unique view without the key having been found free of other documents' entries")
        return ps.set(placed=min((ps.placed or 0) + 1, 2), changed=True, reduced=False)

    def step(ps, l, c):
        w = c.where()
        if l == "policy":
            if ps.pol is not None:
                return [(ps, {(): ps.pol})]
            return [(ps.set(pol=i), {(): i}) for i in range(len(pols))]
        if l == "eq":
            ty = targ(c)
            neg = short(c.path) == "ne"
            if "ViewUpdatePolicy" in ty or "ViewUpdatePolicy" in c.path:
                k = [n for n in pols if any(n in show(c.arg(i)) for i in (0, 1))]
                if len(k) == 1:
                    if ps.pol is None:
                        return None
                    return [(ps, {(): int((pols[ps.pol] == k[0]) != neg)})]
                return None
            sides = [show(TT.norm(c.arg(0))), show(TT.norm(c.arg(1)))]
            if all("id" in s.split(".")[-1] or s.endswith(".id)") for s in sides):
                if ps.scan:
                    return [(ps.set(dup=True), {(): int(not neg)}), (ps, {(): int(neg)})]
                if ps.item:
                    return [(ps.set(conflict=False), {(): int(not neg)}), (ps.set(conflict=True), {(): int(neg)})]
            return None
        if l == "remove":
            ty = " ".join(t.s for t in c.fn.args if hasattr(t, "s"))
            if "HashSet" in ty:
                return [(ps.set(clean=True), {(): 1}), (ps.set(clean=False), {(): 0})]
            if MAPS in ty:
                if ps.more is False:
                    return [(ps.set(new=False), {(): 0})]
                if ps.more is True:
                    return [(ps.set(new=True), {(): 1})]
                return [(ps.set(new=True), {(): 1}), (ps.set(new=False), {(): 0})]
            return None
        if l == "contains":
            ty = " ".join(t.s for t in c.fn.args if hasattr(t, "s"))
            if MAPS in ty:
                return [(ps.set(more=True), {(): 1}), (ps.set(more=False), {(): 0})]
            return None
        if l == "retain":
            ob("entry:retained", ps.clean, w, "entries are dropped although no document's entry is to be cleaned")
            for x in c.ex.callables(c.st, c.fr, c.args[1]):
                keep(x, w)
            return [(ps.set(retained=True, changed=True, reduced=False), {})]
        if l == "empty":
            if ENT in targ(c):
                n1, n0 = ps.set(empty=True), ps.set(empty=False)
                if ps.item:
                    n1 = n1.set(conflict=False)
                return [(n1, {(): 1}), (n0, {(): 0})]
            return None
        if l == "iter":
            it = item(c)
            bad = [a for a in c07.adapters(c) if not a.startswith("rev")]
            if "view::map::Serialized" in it:
                if ps.item:
                    ob("entry:each", ps.placed == 1, w, "a new mapping is stored %s times" % (ps.placed or 0))
                ob("entry:all", not bad, w, "not all new mappings are stored: %s" % bad)
                return [(ps.set(item=True, placed=0, dup=False, conflict=None, scan=False, empty=None, half=frozenset()), {(): 1}), (ps.set(item=False), {(): 0})]
            if ENT in it and ps.item:
                return [(ps.set(scan=True), {(): 1}), (ps.set(scan=False), {(): 0})]
            return None
        if l == "push":
            if ENT in targ(c):
                ob("entry:added", not ps.dup, w, "a second mapping is added for a document that has one under the key")
                return [(place(ps, w), {})]
            return None
        if l == "reduce":
            t = TT.norm(c.arg(2))
            ob("entry:not-rereduced", show(t) in ("0", "false"), w, "reduce is told that it is given reduced values")
            return [(ps.set(reduced=1), res_ok()), (ps.set(failed=True), failure("Core", 0)), (ps.set(failed=True), failure(None, None)),
                    (ps.set(noreduce=True), failure("Core", unimpl))]
        return None

    def keep(x, w):
        """the closure of retain keeps entries of documents that are not to be cleaned, and no others"""
        h, cf, ops = x
        cb = F.bodies[h]

        def st2(ps, l, c):
            return [(True, {(): 1}), (False, {(): 0})]

        def rt(ps, val, st, ex):
            ob("entry:kept", val.get(()) is not None and ps is not None and bool(val[()]) == (not ps), w, "an entry of a document %s is %s" % (
                "to be cleaned" if ps else "that is not to be cleaned", "kept" if val.get(()) else "dropped"))
        proto.run(ctx, TT, cb, "keep", {"contains": ["contains"]}, st2, None, frame=TT.frame(cb, cf, None, tuple((cf, o) for o in ops), ("t", h, cf.id)), ret=rt)

    def branch(ps, st, o, src, val, ex):
        if o[0] in ("c", "m") and val is not None:
            t = show(TT.norm(ex.term(st, o)))
            if "has_reduce" in t and val == 0:
                return ps.set(noreduce=True)
        return ps

    def fieldname(body, place):
        names = [e[2] for e in place[1:] if e[0] == "f"]
        return names[-1] if names else None

    def assign(ps, st, place_, rv, line, ex):
        w = "%s:%d" % (st.fr.body.file, line)
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == KO:
            return ps.set(op=rv[4])
        n = fieldname(st.fr.body, place_)
        if n == "has_reduce" and rv[0] == "use":
            ob("entry:unimplemented", ps.noreduce or show(TT.op(st.fr, rv[1])) in ("1", "true"), w, "values are no longer reduced although reduce is implemented")
        if n in errf and len(place_) > 1:
            return ps.set(err=True)
        if n in ("value", "revision", "source") and ps.scan and ps.item and len(place_) > 1:
            ob("entry:replaced", ps.dup, w, "the mapping of another document is replaced")
            ps = ps.set(half=ps.half ^ {"value" if n == "value" else "source"})
            return place(ps, w) if len(ps.half) == 2 else ps
        if n == "reduced_value" and ps.reduced == 1:
            return ps.set(reduced=2)
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        if ps.op == "Remove":
            ob("entry:removed", ps.clean and ps.retained and ps.empty and ps.more is False, w, "an entry is removed although it may still hold mappings")
        elif ps.op == "Skip":
            ob("entry:failure", ps.err, w, "a key is left alone without an error being recorded")
        elif ps.op == "Set":
            ob("entry:cleaned", ps.clean is not None and ps.retained == ps.clean, w, "an entry is stored without having been cleaned")
            ob("entry:mapped", ps.new is not None and not ps.item, w, "an entry is stored before all new mappings were put into it")
            ob("entry:reduced", not ps.changed or ps.reduced == 2 or ps.noreduce, w, "an entry is stored with a reduced value that does not cover its mappings")
            ob("entry:error-ignored", not ps.failed, w, "an entry is stored although reduce failed")
        else:
            ob("entry:effect", False, w, "an entry is subjected to %s" % ps.op)
    proto.run(ctx, TT, b, "entry" if not unique else "unique:entry",
              {"policy": ["update_policy"], "eq": ["eq", "ne"], "remove": [BM + "remove"], "contains": [BM + "contains_key"],
               "retain": ["alloc::vec::Vec::<T, A>::retain"], "empty": ["alloc::vec::Vec::<T, A>::is_empty"], "iter": [proto.ITER], "push": [PUSH], "reduce": [SER + "reduce"]},
              step, rec(EFL, retained=False, changed=False, reduced=False, noreduce=False, err=False, failed=False, placed=0, item=False, dup=False, scan=False, half=frozenset()),
              need=("remove", "retain", "iter", "push", "reduce", "policy"), branch=branch, assign=assign, ret=ret)
