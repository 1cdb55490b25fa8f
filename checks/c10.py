"""C10: every change of a document reaches every view over its collection, in the same transaction."""
from terms import alts, short, show
from explore import res_ok, res_err
import c07
import proto

EXPLAIN = ("Every path of apply_transaction from the start of the storage transaction to its commit is explored over compiler MIR, once "
           "for each update policy a view can have; the iterations over changed documents and views are followed in whichever order they "
           "are nested, as are the writes of document trees and of the trees that list documents to be mapped again.")
RULE = ("Before the commit, the iterations over all changed documents and, for each, over all views of its collection have ended "
        "without leaving early; in between, for each pair whose view's policy is not eager, the document's id was written to the tree "
        "of that view's list of invalidated documents. After each write of a document tree the eager views of the operation's "
        "collection were iterated to the end, each mapped with exactly that document's id within the same transaction, before "
        "the operation ends in success. The lists of views the schematic keeps hold each view of the collection, eager ones in both.")
ASSUME = ["itertools' group_by puts each element in exactly one group.",
          "A document write that nebari's CompareSwap performs is one whose closure returned KeyOperation::Set."]
POLICY = "bonsaidb_core::schema::view::ViewUpdatePolicy"
SER = "bonsaidb_core::schema::view::Serialized"
CD = "bonsaidb_core::transaction::ChangedDocument"
DR = "bonsaidb_local::views::mapper::DocumentRequest"


def kind_of(c):
    """what an iterator yields: groups, changed documents, views"""
    ty = c.fn.args[0].s if c.fn.args else ""
    d = c.fr.body.locals[c.dest[0]].s if len(c.dest) == 1 else ""
    s = d if "Option<" in d else ty
    if "itertools::groupbylazy::Group<" in s:
        return "group"
    if "dyn " + SER in s:
        return "views"
    if CD in s:
        return "docs"
    if "vec::Vec<u8>" in s or "DocumentId" in s or "ArcBytes" in s:
        TT = c.ex.TT
        e = TT.norm(TT.elem(c.arg(0)))
        if e.k == "fld" and e.d[1] == "id" and e.d[0].k == "elem":
            return "docs"       # the ids of the changed documents, taken out beforehand
    return None


def captured(TT, cb, place):
    """the captured variable a place of a closure stands for"""
    for _ in range(4):
        if place[0] == 1:
            return place
        ds = [d for d in TT.defs(cb).get(place[0], ()) if len(d[0]) == 1]
        if len(ds) != 1:
            return None
        rv = ds[0][1]
        p = rv[1][1] if rv[0] == "use" and rv[1][0] in ("c", "m") else rv[2] if rv[0] == "ref" else None
        if p is None:
            return None
        place = p
    return None


def elements(TT, t):
    """what a `vec![…]` was made of"""
    out = []
    for x in TT.walk(t, 0):
        if x.k == "call" and x.x is not None and "into_vec" in x.d[0]:
            b = x.x[1].body
            for bl in b.blocks:
                for p, rv, ln in (bl[0] if bl else ()):
                    if rv[0] == "agg" and rv[1] == "array":
                        out += [TT.op(x.x[1], o) for o in rv[6]]
    return out


class S(tuple):
    # open: ((kind, satisfied), …) innermost last; done: all changed documents were visited; wrote: a document write waits for
    # its eager views; eager: iteration over eager views; pol: policy of the current view
    F = ("phase", "open", "done", "wrote", "eager", "pol")
    __slots__ = ()

    def __getattr__(self, n):
        return self[S.F.index(n)]

    def set(self, **kw):
        return S(kw.get(n, v) for n, v in zip(S.F, self))


def check(ctx):
    F = ctx.F
    TT = ctx.terms(opaque=set())
    b = c07.root_of(ctx)
    if b is None:
        return
    pols = [v[0] for v in F.adts[POLICY]["variants"]]
    keys = set()
    lazy = [i for i, n in enumerate(pols) if n not in ("Eager", "Unique")]
    VIEWS = "bonsaidb_core::schema::schematic::Schematic::views_in_collection"
    EAGER = "bonsaidb_core::schema::schematic::Schematic::eager_views_in_collection"

    def mentions(t, p):
        return any(x.k == "call" and x.d[0] == p for x in TT.walk(t, 0))

    def doc_tree(t):
        return any(x.k == "call" and short(x.d[0]) == "document_tree_name" for x in TT.walk(t, 2))

    def inv_tree(t):
        return any(x.k == "call" and short(x.d[0]) == "view_invalidated_docs_tree_name" for x in TT.walk(t, 2))

    def satisfied(ps, k=None):
        """the innermost open item (of kind k) is dealt with"""
        o = list(ps.open)
        for i in range(len(o) - 1, -1, -1):
            if k is None or o[i][0] == k:
                o[i] = (o[i][0], True)
                break
        return ps.set(open=tuple(o))

    def step(ps, l, c):
        w = c.where()
        if l == "begin":
            return [(ps.set(phase=1), res_ok()), (ps.set(phase=3), res_err())]
        if ps.phase != 1:
            return None
        if l in ("views", "eagers"):
            t = c.arg(1)
            if l == "eagers":
                ok = any(x.k == "call" or True for x in alts(TT.norm(t)))
                n = show(TT.norm(t))
                ctx.ob("eager:collection", n.endswith("collection") or "collection" in n, w, "the eager views consulted are those of %s" % n[:80])
                ctx.ob("eager:after-write", ps.wrote != 0, w, "eager views are updated although nothing was written")
                return [(ps.set(eager=1, wrote=2 if ps.wrote == 1 else ps.wrote), {})]
            return None
        if l == "iter":
            k = kind_of(c)
            if k is None:
                return None
            t = c.arg(0)
            if mentions(t, EAGER) or (k == "views" and ps.eager):
                if ps.eager == 2:
                    ctx.fail("eager:mapped", w, "an eager view is passed over without being mapped")
                return [(ps.set(eager=2), {(): 1}), (ps.set(eager=0, wrote=0), {(): 0})]
            bad = [x for x in c07.adapters(c) if not x.startswith("rev") and not (k == "views" and x.startswith("filter"))]
            ctx.ob("all-visited", not bad, w, "not all changed documents and views are visited: %s" % bad)
            o = ps.open
            # leaving an inner item by moving an outer iteration on
            while o and o[-1][0] != k and any(x[0] == k for x in o):
                o = o[:-1]
            if o and o[-1][0] == k:
                ctx.ob("invalidated", o[-1][1], w, {"views": "a view that is not eager is passed over for a changed document",
                                                    "docs": "a changed document is passed over without being added to a view's list",
                                                    "group": "a group of changed documents is passed over"}[k])
                o = o[:-1]
            more = ps.set(open=o + ((k, False),), pol=None if k == "views" else ps.pol)
            end = ps.set(open=o)
            end = satisfied(end) if o else end.set(done=end.done or k != "views")
            return [(more, {(): 1}), (end, {(): 0})]
        if l == "peek":
            k = kind_of(c)
            if k == "views" and mentions(c.arg(0), EAGER):
                return [(ps, {(): 1}), (ps.set(eager=0, wrote=0), {(): 0})]
            if k == "views":
                return [(ps, {(): 1}), (satisfied(ps), {(): 0})]
            return None
        if l == "empty":
            t = c.fn.args[0].s if c.fn.args else ""
            if CD in t:
                return [(ps.set(done=True), {(): 1}), (ps, {(): 0})]
            return None
        if l == "policy":
            if ps.pol is not None and ps.open and ps.open[-1][0] != "views" and not any(x[0] == "views" for x in ps.open):
                pass
            if ps.pol is not None:
                return [(ps, {(): ps.pol})]
            out = []
            for i in range(len(pols)):
                n = ps.set(pol=i)
                if i not in lazy:
                    n = satisfied(n, "views")
                out.append((n, {(): i}))
            return out
        if l == "filter":
            if mentions(c.arg(0), EAGER):
                ctx.fail("eager:filtered", w, "eager views are filtered")
                return None
            if not mentions(c.arg(0), VIEWS):
                return None
            cl = c.ex.callables(c.st, c.fr, c.args[1])
            ctx.ob("filter:known", len(cl) == 1, w, "the views are filtered by an unknown condition")
            for x in cl:
                filter_closure(x, w)
            return None
        if l == "mapdocs":
            ctx.ob("eager:within", ps.eager == 2 or ps.wrote == 0, w, "a view is mapped outside of the iteration over eager views")
            request(c)
            return [(ps.set(eager=1 if ps.eager == 2 else ps.eager), res_ok()), (ps.set(phase=3), res_err())]
        if l == "write":
            t = c.arg(0)
            if inv_tree(t) and not doc_tree_only(t):
                if ps.open:
                    okid = id_ok(c)
                    ctx.ob("invalidated:id", okid, w, "what is put on the list of invalidated documents is %s" % show(TT.norm(c.arg(1)))[:100])
                    ctx.ob("invalidated:write", short(c.path) in ("set", "replace", "modify"), w, "%s on the list of invalidated documents" % short(c.path))
                    return [(satisfied(ps), res_ok()), (ps.set(phase=3), res_err())]
                ctx.fail("invalidated:outside", w, "the list of invalidated documents is written outside of the iterations")
                return [(ps, res_ok()), (ps.set(phase=3), res_err())]
            if doc_tree(t):
                keys.update(a for e in [c.arg(1)] + elements(TT, c.arg(1)) for a in alts(TT.norm(e)))
                ctx.ob("eager:before-next", ps.wrote != 1, w, "another document is written before the eager views were updated for the last")
                if short(c.path) in ("modify", "compare_and_swap"):
                    return modify(ps, c)
                p = short(c.path)
                some = {(): 0, (("v", 0), ("f", 0)): 1}
                none = {(): 0, (("v", 0), ("f", 0)): 0}
                if p == "remove":
                    return [(ps.set(wrote=1), some), (ps, none), (ps.set(phase=3), res_err())]
                if p == "replace":
                    return [(ps.set(wrote=1), some), (ps.set(wrote=1), none), (ps.set(phase=3), res_err())]
                return [(ps.set(wrote=1), res_ok()), (ps.set(phase=3), res_err())]
            return None
        if l == "cut":
            if any(CD in str(a.s) for a in c.fn.args):
                ctx.fail("all-visited", w, "%s takes changed documents from the list before their views were told" % short(c.path))
            return None
        if l == "commit":
            ctx.ob("commit:all-views", ps.done and not ps.open, w, "commits before the views of all changed documents were considered")
            ctx.ob("commit:eager", ps.wrote == 0, w, "commits although eager views were not updated for a document written")
            return [(ps.set(phase=2), res_ok()), (ps.set(phase=2), res_err())]
        return None

    def doc_tree_only(t):
        return False

    def modify(ps, c):
        """Whether the closure has the document written shows in a variable it sets."""
        out = [(ps.set(phase=3), res_err())]
        clos = [x.x for x in TT.walk(c.arg(2), 1) if x.k == "clo" and x.x[0] in F.bodies]
        flags = {}
        for h, cf, ops in clos:
            for i, v in swap_flags(F.bodies[h], cf, ops).items():
                l = c07.origin(TT, cf.body, ops[i])
                if l is not None:
                    flags[(cf, (l,))] = v
        if len(clos) != 1 or not flags:
            return out + [(ps.set(wrote=1), res_ok())]
        return out + [(ps.set(wrote=1), res_ok(), [(k, {(): v}) for k, v in flags.items()]),
                      (ps.set(wrote=0), res_ok(), [(k, {(): 1 - v}) for k, v in flags.items()])]

    memo = {}

    def swap_flags(cb, cf, ops):
        """captured variables that hold a value exactly when the closure returned KeyOperation::Set"""
        if cb.h in memo:
            return memo[cb.h]
        rets = []

        def assign(ps, st, place, rv, line, ex):
            op, fl = ps
            if st.fr.body is not cb:
                return ps
            if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("::KeyOperation") and place == (0,):
                return (rv[4], fl)
            base = captured(TT, cb, place) if len(place) > 1 and place[-1][0] == "*" else None
            if base is not None:
                i = [e[1] for e in base[1:] if e[0] == "f"]
                if len(i) == 1:
                    v = None
                    if rv[0] == "use" and rv[1][0] == "k":
                        v = getattr(rv[1][1], "v", None)
                    elif rv[0] == "agg" and rv[1] == "adt":
                        v = rv[3]
                    return (op, frozenset([x for x in fl if x[0] != i[0]] + [(i[0], v)]))
            return ps

        def ret(ps, val, st, ex):
            rets.append(ps)
        proto.run(ctx, TT, cb, "swap", {"x": [c07.TTN + "nothing"]}, lambda ps, l, c: None, (None, frozenset()), assign=assign, ret=ret,
                  frame=TT.frame(cb, cf, None, tuple((cf, o) for o in ops), ("t", cb.h, cf.id)))
        sets = [dict(f) for o, f in rets if o != "Skip"]
        rest = [dict(f) for o, f in rets if o == "Skip"]
        out = {}
        for i, v in (sets[0].items() if sets else ()):
            if v in (0, 1) and all(s.get(i) == v for s in sets) and all(s.get(i) in (None, 1 - v) for s in rest):
                out[i] = v
        memo[cb.h] = out
        return out

    def id_ok(c):
        for a in alts(TT.norm(c.arg(1))):
            s = show(a)
            if not s.rstrip(")").endswith(".id") and ".id" not in s:
                return False
        return True

    def request(c):
        """the request that is mapped is for the document written"""
        for x in proto.has_agg(TT, c.arg(0), DR):
            fs = dict(x.d[2])
            for e in elements(TT, fs["document_ids"]):
                e = TT.norm(e)
                ctx.ob("eager:document", all(a in keys or ".header.id" in show(a)[-32:] for a in alts(e)), c.where(),
                       "the document mapped for an eager view is %s" % show(e)[:100])
            want = {"document_map": "view_document_map_tree_name", "documents": "document_tree_name", "view_entries": "view_entries_tree_name"}
            for f, tn in want.items():
                names = {short(y.d[0]) for y in TT.walk(fs[f], 2) if y.k == "call" and short(y.d[0]).endswith("tree_name")}
                ctx.ob("eager:trees:%s" % f, names in ({tn}, {tn, "document_tree_name"} if f != "documents" else {tn}) or not names, c.where(),
                       "%s of the mapping is %s" % (f, sorted(names)))

    def filter_closure(x, w):
        h, cf, ops = x
        cb = F.bodies[h]

        def st2(ps, l, c):
            if ps is not None:
                return [(ps, {(): ps})]
            return [(i, {(): i}) for i in range(len(pols))]

        def rt(ps, val, st, ex):
            v = val.get(())
            ctx.ob("filter:lazy", ps is not None and v == int(ps in lazy), w,
                   "a view with update policy %s is %s" % (pols[ps] if ps is not None else "?", {0: "left out", 1: "included", None: "included or left out for another reason"}[v]))
        proto.run(ctx, TT, cb, "filter", {"policy": ["update_policy"]}, st2, None, need=("policy",), ret=rt,
                  frame=TT.frame(cb, cf, None, tuple((cf, o) for o in ops), ("t", h, cf.id)), enter=enter)

    def enter(ps, c, body):
        if any(POLICY in t.s for t in body.locals[1:body.argc + 1]):
            return True
        return None

    def left(ps, st, val, ex):
        body = st.fr.body
        if ps.phase != 1 or not proto.direct(TT, st.fr):
            if body.kind == "closure" and ps.wrote == 0 and False:
                return ps
            return ps
        if val.get(()) == 1 and body.locals[0].adt == "core::result::Result":
            return ps.set(phase=3, open=(), wrote=0, eager=0)
        if val.get(()) == 0 and body.locals[0].s.startswith("core::result::Result<" + c07.OPR):
            ctx.ob("eager:updated", ps.wrote != 1, ctx.where(body), "an operation can succeed without the eager views being updated for the document it wrote")
            ctx.ob("eager:all", ps.eager == 0, ctx.where(body), "an operation can end before all eager views were mapped")
            return ps.set(wrote=0)
        return ps

    def branch(ps, st, o, src, val, ex):
        return ps

    ps0 = S((0, (), False, 0, 0, None))
    proto.run(ctx, TT, b, "views", {"begin": c07.BEGIN, "commit": c07.COMMIT, "write": c07.WRITES, "iter": [proto.ITER],
                                    "views": [VIEWS], "eagers": [EAGER], "peek": ["core::iter::adapters::peekable::Peekable::<I>::peek"],
                                    "policy": ["update_policy"], "filter": ["core::iter::traits::iterator::Iterator::filter"],
                                    "mapdocs": [DR + "::<'a>::map"], "empty": ["is_empty"], "cut": c07.CUTS},
              step, ps0, need=("begin", "commit", "write", "iter", "eagers", "mapdocs"), left=left, branch=branch, enter=enter, quiet=("iter", "empty", "filter", "peek", "cut"))
    listed(ctx, TT)


def listed(ctx, TT):
    """Defining a view puts it on its collection's lists."""
    bs = ctx.needs("Schematic::define_view_with_schema")
    F = ctx.F
    pols = [v[0] for v in F.adts[POLICY]["variants"]]
    for b in bs:
        def step(ps, l, c):
            pol, all_, eager, by_type, by_name = ps
            if l == "policy":
                if pol is not None:
                    return [(ps, {(): pol})]
                return [((i,) + ps[1:], {(): i}) for i in range(len(pols))]
            t = show(c.arg(0))
            if l == "push":
                if "eager_views_by_collection" in t:
                    return [((pol, all_, eager + 1, by_type, by_name), {})]
                if "views_by_collection" in t:
                    return [((pol, all_ + 1, eager, by_type, by_name), {})]
                return None
            if l == "insert":
                if "views_by_name" in t:
                    return [((pol, all_, eager, by_type, by_name + 1), {})]
                if "views" in t:
                    return [((pol, all_, eager, by_type + 1, by_name), {})]
            return None

        def ret(ps, val, st, ex):
            pol, all_, eager, by_type, by_name = ps
            if val.get(()) == 1:
                return
            w = ctx.where(b)
            ctx.ob("listed:all", all_ == 1, w, "a view can be defined without being put on its collection's list of views")
            want = None if pol is None else int(pols[pol] in ("Eager", "Unique"))
            ctx.ob("listed:eager", eager == want, w, "a view with update policy %s is put on its collection's list of eager views %d times" % (pols[pol] if pol is not None else "?", eager))
            ctx.ob("listed:found", by_type == 1 and by_name == 1, w, "a view can be defined without becoming known by type and name")

        def enter(ps, c, body):
            if any(POLICY in t.s for t in body.locals[1:body.argc + 1]):
                return True
            return None
        proto.run(ctx, TT, b, "listed", {"policy": ["update_policy"], "push": ["alloc::vec::Vec::<T, A>::push"],
                                         "insert": ["std::collections::hash::map::HashMap::<K, V, S, A>::insert"]},
                  step, (None, 0, 0, 0, 0), need=("policy", "push", "insert"), ret=ret, enter=enter)
    for n, f in (("views_in_collection", "views_by_collection"), ("eager_views_in_collection", "eager_views_by_collection")):
        for b in ctx.needs("Schematic::" + n):
            s = show(TT.norm(TT.local(TT.frame(b), 0, ())))
            ctx.ob("listed:" + n, f in s and "collection)" in s and ("eager" in f or "eager" not in s), ctx.where(b), "%s yields %s" % (n, s[:100]))
