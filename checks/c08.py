"""C08: optimistic concurrency."""
from terms import alts, short, show
from explore import res_ok, res_err
import fwd
import proto
import c07

EXPLAIN = ("Each operation kind is followed from apply_transaction to the document tree, and into the closure that decides what is "
           "stored, with the command's own fields as the values (Update and Overwrite are analysed separately although they share "
           "code); the comparisons, look-up outcomes, stored value and reported header are read off each path.")
RULE = ("Update stores something only on a path where the document existed and its stored revision compared equal to the command's "
        "revision; without that the operation ends in an error. Overwrite stores unconditionally, insert only where nothing was stored "
        "under the id, delete succeeds only where a document was there with exactly the given header, check only where it exists with "
        "the given revision if one is given. What is stored is the command's contents under the command's id, with the next revision "
        "of the stored one (or the first), and the header reported is the one stored; contents that do not change keep the stored "
        "header. Every access is to the tree of the operation's own collection. Equality of revisions and headers compares every field.")
ASSUME = ["nebari's replace/remove/modify/get return what was stored under the key in this transaction.",
          "SHA-256 digests of different contents differ."]
OPS = c07.OPR
CMD = "bonsaidb_core::transaction::Command"
DB = "bonsaidb_local::database::"
RV = "bonsaidb_core::document::revision::Revision::"
OPTIONAL = (("Check", "revision"), ("Insert", "id"))


def doc_tree(TT, t):
    return [x for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) == "document_tree_name"]


def fields(TT, b, t):
    r, f = fwd.unwrap(TT.norm(t))
    return tuple(x for x in f if x != "*") if r.k == "par" and r.d[0] == b.h and r.d[1] == 2 else None


def noneness(TT, b, t):
    """True: certainly None; False: certainly something; None: either"""
    out = set()
    for a in alts(TT.norm(t)):
        if a.k == "agg" and a.d[1] == "None":
            out.add(True)
            continue
        f = fields(TT, b, a)
        if f is not None and len(f) > 1 and f[:2] == ("operations", "command"):
            out.add(None if f[2:] in OPTIONAL else False)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def is_stored(TT, t, what):
    """the header or revision of the document that was read from the tree"""
    r, f = fwd.unwrap(TT.norm(t))
    f = tuple(x for x in f if x != "*")
    return r.k == "call" and short(r.d[0]) == "deserialize_document" and f == what


class S(tuple):
    F = ("cmd", "there", "match", "norev", "hit", "live")
    __slots__ = ()

    def __getattr__(self, n):
        return self[S.F.index(n)]

    def set(self, **kw):
        return S(kw.get(n, v) for n, v in zip(S.F, self))


FRESH = S((None, None, False, False, False, False))
LIVE = FRESH.set(live=True)


def compare(ctx, TT, b, c):
    """(is it a comparison of the stored with the given revision?, equal?)"""
    l, r = c.arg(0), c.arg(1)
    for x, y in ((l, r), (r, l)):
        for w in (("header", "revision"), ("header",)):
            if is_stored(TT, x, w):
                f = fields(TT, b, y)
                ok = f is not None and f[-len(w):] == w or (w == ("header", "revision") and f is not None and f[-1:] == ("revision",))
                if noneness(TT, b, y) is True:
                    return "none"
                return "cmp" if ok else None
    return None


def check(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={DB + "deserialize_document", DB + "serialize_document", RV + "next_revision", RV + "new", RV + "digest",
                           "bonsaidb_core::document::revision::digest", "bonsaidb_core::document::BorrowedDocument::<'a>::new",
                           "bonsaidb_core::schema::schematic::Schematic::next_id_for_collection"})
    b = c07.root_of(ctx)
    if b is None:
        return
    cmds = [v[0] for v in F.adts[CMD]["variants"]]
    seen, closures = set(), {}

    def boundary(ps, w):
        if ps.cmd is None:
            return
        n = cmds[ps.cmd]
        seen.add(n)
        if n == "Insert":
            ctx.ob("insert:absent", ps.there is False, w, "an insert succeeds %s" % ("although a document with its id is stored" if ps.there else "without looking for a document with its id"))
        elif n == "Delete":
            ctx.ob("delete:present", ps.there is True, w, "a delete succeeds without a document having been there")
            ctx.ob("delete:header", ps.match, w, "a delete succeeds without the stored header having been compared with the given one")
        elif n == "Check":
            ctx.ob("check:present", ps.there is True, w, "a check succeeds without the document having been found")
            ctx.ob("check:revision", ps.match or ps.norev, w, "a check succeeds without the stored revision having been compared with the given one")
        else:
            ctx.ob("%s:performed" % n, ps.hit, w, "an %s succeeds without touching the document" % n.lower())

    def step(ps, l, c):
        if l == "begin":
            return [(LIVE, res_ok()), (FRESH, res_err())]
        if not ps.live:
            return None
        if l == "iter":
            if not c07.is_ops(TT, b, c.arg(0)):
                return None
            boundary(ps, c.where())
            return [(LIVE, {(): 1}), (LIVE, {(): 0})]
        if l == "eq":
            k = compare(ctx, TT, b, c)
            if k is None:
                return None
            eq = short(c.path) == "eq"
            no = (ps, {(): 0 if eq else 1})
            if k == "none":
                return [no]
            return [(ps.set(match=True), {(): 1 if eq else 0}), no]
        dt = doc_tree(TT, c.arg(0))
        if not dt:
            return None
        for x in dt:
            f = fields(TT, b, x.d[1][0])
            ctx.ob("own-collection", f == ("operations", "collection"), c.where(), "the tree accessed is that of %s" % show(x.d[1][0])[:80])
        n = short(c.path)
        cmd = cmds[ps.cmd] if ps.cmd is not None else None
        if n in ("replace", "get", "remove"):
            f = fields(TT, b, c.arg(1))
            k = show(TT.norm(c.arg(1)))
            if cmd in ("Delete", "Check", "Update", "Overwrite"):
                want = {("operations", "command", cmd) + s for s in (("id",), ("header", "id"))}
                ctx.ob("key:%s" % n, f in want, c.where(), "%s the document %s" % (n, k[-80:]))
            if n == "replace":
                stored(ctx, TT, b, c.where(), "insert", c.arg(2), c.arg(1), None, None)
        if n in ("replace", "get", "remove"):
            a, m = ({(): 0, (("v", 0), ("f", 0)): 1}, {(): 0, (("v", 0), ("f", 0)): 0})
            return [(ps.set(there=True, hit=True), a), (ps.set(there=False, hit=True), m), (ps.set(there=None), res_err())]
        if n in ("modify", "compare_and_swap"):
            for x in TT.walk(c.arg(2), 1):
                if x.k == "clo":
                    closures.setdefault((x.x[0], cmd), (x.x, c.where()))
            return [(ps.set(hit=True), res_ok()), (ps, res_err())]
        if n == "set":
            ctx.ob("set:checked", cmd in ("Overwrite",) or (cmd == "Insert" and ps.there is False) or (cmd == "Update" and ps.match), c.where(),
                   "a document is stored by %s without the check it needs" % cmd)
            return [(ps.set(hit=True), res_ok()), (ps, res_err())]
        return None

    def branch(ps, st, o, src, val, ex):
        if src is not None:
            ty = c07.place_ty(st.fr.body, src)
            if ty is not None and ty.adt == CMD and val is not None:
                return LIVE.set(cmd=val) if ps.live else ps
            if val == 0 and ty is not None and ty.adt == "core::option::Option":
                if fields(TT, b, ex.term(st, ("c", src))) == ("operations", "command", "Check", "revision"):
                    return ps.set(norev=True)
        elif o[0] in ("c", "m") and val is not None:
            t = TT.norm(ex.term(st, o))
            if t.k == "call" and short(t.d[0]) in ("is_none", "is_some") and fields(TT, b, t.d[1][0]) == ("operations", "command", "Check", "revision"):
                if bool(val) == (short(t.d[0]) == "is_none"):
                    return ps.set(norev=True)
        return ps
    EQ = ["eq", "ne"]
    proto.run(ctx, TT, b, "operations", {"begin": c07.BEGIN, "w": c07.WRITES + c07.READS, "eq": EQ, "iter": [proto.ITER]}, step, FRESH, need=("w", "eq"),
              quiet=("eq",), branch=branch, stop=lambda x: "::mapper" in x.path)
    for n in cmds:
        ctx.ob("kind:%s" % n, n in seen, ctx.where(b), "no path executing an %s was found" % n)
    for (h, cmd), (x, w) in sorted(closures.items(), key=str):
        swap(ctx, TT, b, F.bodies[h], x, cmd, w)
    for n in ("Update", "Overwrite"):
        pass
    equality(ctx)
    revision(ctx, TT)


def stored(ctx, TT, b, w, what, doc, key, header, old):
    """The document that is serialized: the command's contents under the command's id."""
    d = TT.norm(doc)
    for a in alts(d):
        if a.k == "call" and short(a.d[0]) in ("serialize_document", "map"):
            a = TT.norm(a.d[1][0])
        if a.k == "call" and short(a.d[0]) == "serialize_document":
            a = TT.norm(a.d[1][0])
        for y in alts(a):
            if y.k == "agg" and y.d[1] == "BorrowedDocument" or (y.k == "agg" and y.d[0].endswith("BorrowedDocument")):
                f = dict(y.d[2])
                cont = f["contents"]
                h = TT.norm(f["header"])
                hd = dict(h.d[2]) if h.k == "agg" else {}
                ident, rev = hd.get("id"), hd.get("revision")
            elif y.k == "call" and short(y.d[0]) == "new":
                ident, cont, rev = y.d[1][0], y.d[1][1], None
            else:
                ctx.fail("%s:stored" % what, w, "what is stored is %s" % show(y)[:100])
                continue
            c = [x for x in TT.walk(cont, 0)]
            ok = any((fields(TT, b, x) or ())[-1:] == ("contents",) for x in c) and len(alts(TT.norm(cont))) == 1
            ctx.ob("%s:contents" % what, ok, w, "the contents stored are %s" % show(cont)[:80])
            if what != "insert":
                f = fields(TT, b, ident) if ident is not None else None
                ctx.ob("%s:id" % what, f is not None and f[-1] == "id", w, "the document is stored with id %s" % (show(ident)[:80] if ident is not None else "?"))
            if rev is not None:
                r = TT.norm(rev)
                ok = r.k == "call" and short(r.d[0]) == "next_revision" and is_stored(TT, r.d[1][0], ("header", "revision")) \
                    and (fields(TT, b, r.d[1][1]) or ())[-1:] == ("contents",)
                ctx.ob("%s:revision" % what, ok, w, "the revision stored is %s" % show(r)[:100])


def swap(ctx, TT, b, cb, x, cmd, where):
    """The closure that decides what to store for an existing (or missing) document."""
    h, cf, ops = x
    fr = TT.frame(cb, cf, None, tuple((cf, o) for o in ops), ("t", h, cf.id), None)
    name = "%s:decision" % cmd
    seen = set()

    def step(ps, l, c):
        there, match, op, res = ps
        if l == "eq":
            k = compare(ctx, TT, b, c)
            if k is None:
                return None
            eq = short(c.path) == "eq"
            no = (ps, {(): 0 if eq else 1})
            return [no] if k == "none" else [((there, True, op, res), {(): 1 if eq else 0}), no]
        if l == "isnone":
            n = noneness(TT, b, c.arg(0))
            if n is None:
                return None
            v = n == (short(c.path) == "is_none")
            return [(ps, {(): int(v)})]
        if l == "ser":
            stored(ctx, TT, b, c.where(), cmd, c.arg(0), None, None, None)
            seen.add("ser")
            return [(ps, res_ok()), (ps, res_err())]
        if l == "next":
            return [(ps, {(): 1}), (ps, {(): 0})]
        return None

    def branch(ps, st, o, src, val, ex):
        if src is None:
            return ps
        t = TT.norm(ex.term(st, ("c", src)))
        if t.k == "par" and t.d[0] == cb.h and t.d[1] == 3 and val is not None:
            return (bool(val),) + ps[1:]
        n = noneness(TT, b, t)
        ty = c07.place_ty(st.fr.body, src)
        if n is not None and val is not None and ty is not None and ty.adt == "core::option::Option" and (val == 0) != n:
            return None
        return ps

    def assign(ps, st, place, rv, line, ex):
        there, match, op, res = ps
        if rv[0] == "agg" and rv[1] == "adt":
            if rv[2].endswith("::KeyOperation"):
                return (there, match, rv[4], res)
            if rv[2] == "core::result::Result" and st.fr.body is cb and OPS in st.fr.body.locals[place[0]].s:
                return (there, match, op, rv[3])
            if rv[2] == OPS and st.fr.body is cb and rv[4] == "DocumentUpdated":
                fs = dict(zip([f[0] for f in ctx.F.adts[OPS]["variants"][1][1]], rv[6]))
                t = TT.norm(ex.term(st, fs["header"]))
                for a in alts(t):
                    ok = is_stored(TT, a, ("header",)) or (a.k == "agg" and a.d[0].endswith("Header")) or (
                        a.k == "fld" and a.d[1] == "header")
                    ctx.ob("%s:reported-header" % cmd, ok, "%s:%d" % (cb.file, line), "the header reported is %s" % show(a)[:100])
                c = fields(TT, b, ex.term(st, fs["collection"]))
                ctx.ob("%s:reported-collection" % cmd, c == ("operations", "collection"), "%s:%d" % (cb.file, line), "the collection reported is wrong")
        return ps

    def ret(ps, val, st, ex):
        there, match, op, res = ps
        w = ctx.where(cb)
        seen.add(op)
        if op == "Set":
            ctx.ob("%s:checked" % cmd, cmd == "Overwrite" or (there and match), w, "an %s stores the document %s" % (
                (cmd or "operation").lower(), "although nothing was stored" if there is False else "without its stored revision having been compared with the given one"))
            ctx.ob("%s:reported" % cmd, res == 0, w, "stores the document but reports an error")
        elif op == "Skip":
            ok = res == 1 or (res == 0 and there and (match or cmd == "Overwrite"))
            ctx.ob("%s:skipped" % cmd, ok, w, "reports success without storing, although the revision did not match")
            if res == 0:
                seen.add("unchanged")
        else:
            ctx.fail("%s:effect" % cmd, w, "the document is subjected to %s" % op)
    proto.run(ctx, TT, cb, name, {"eq": ["eq", "ne"], "isnone": ["is_none", "is_some"], "ser": [DB + "serialize_document"],
                                  "next": ["bonsaidb_core::document::revision::Revision::next_revision"]},
              step, (None, False, None, None), frame=fr, branch=branch, assign=assign, ret=ret, quiet=("eq", "isnone"))
    ctx.ob("%s:stores" % cmd, "Set" in seen and "ser" in seen, where, "an %s never stores the document" % (cmd or "operation").lower())


def equality(ctx):
    for ty in ("bonsaidb_core::document::header::Header", "bonsaidb_core::document::revision::Revision"):
        der = [i for i in ctx.F.impls if i["self"] == ty and i["trait"] == "core::marker::StructuralPartialEq"]
        ctx.ob("equality:%s" % short(ty), bool(der), "crates/bonsaidb-core/src/document", "equality of %s is not derived from all its fields" % short(ty))


def revision(ctx, TT):
    b = ctx.need("bonsaidb_core::document::revision::Revision::next_revision")
    if b is None:
        return

    def step(ps, l, c):
        sides = [show(TT.norm(c.arg(i))) for i in (0, 1)]
        dig = [s for s in sides if "finalize" in s or "digest" in s]
        old = [s for s in sides if s == "self.sha256"]
        if not (dig and old):
            return None
        eq = short(c.path) == "eq"
        return [("same", {(): 1 if eq else 0}), ("differ", {(): 0 if eq else 1})]

    def ret(ps, val, st, ex):
        v = val.get(())
        ctx.ob("revision:changes", (ps == "differ") == (v == 1) and ps != "start", ctx.where(b), "the next revision %s although the contents %s" % (
            "exists" if v else "does not exist", {"same": "are the same", "differ": "differ", "start": "were not compared"}[ps]))
    proto.run(ctx, TT, b, "revision", {"eq": ["eq", "ne"]}, step, "start", need=("eq",), ret=ret)
    t = ctx.terms(opaque={"bonsaidb_core::document::revision::digest"}).norm(TT.local(TT.frame(b), 0, ()))
    for a in alts(t):
        if a.k == "agg" and a.d[0].endswith("Revision"):
            f = dict(a.d[2])
            i = TT.norm(f["id"])
            adds = [x for x in TT.walk(i, 0) if (x.k == "call" and short(x.d[0]) in ("checked_add", "wrapping_add", "saturating_add", "add")) or (x.k == "bin" and x.d[0].startswith("Add"))]
            ctx.ob("revision:number", bool(adds) and "self.id" in show(i), ctx.where(b), "the next revision's number is %s" % show(i)[:60])
            s = show(TT.norm(f["sha256"]))
            ctx.ob("revision:digest", "new_contents" in s or "finalize" in s, ctx.where(b), "the next revision's digest is %s" % s[:60])
