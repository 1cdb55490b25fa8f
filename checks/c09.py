"""C09: the log of executed transactions says what was executed."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c17
import c30
import fwd
import proto
from c30 import strips, is_par, pidx, has_call
from prov import LOSSY, SELECT, Prov, inner

EXPLAIN = ("Listing executed transactions, reading the last transaction's id, and writing and reading what a log entry holds, in the current and the legacy format, are explored over compiler MIR on every path, "
           "the closure that gathers the entries on its own, with an entry holding data or not and the limit being reached or not; what is scanned for and returned is compared as provenance terms.")
RULE = ("The database's own log is scanned from the id asked for, if any, with no upper bound; each entry that holds data is gathered once and no other; the scan goes on exactly while fewer entries were gathered than the smaller "
        "of the limit asked for (or the default) and the maximum; what is returned are the entries gathered, all of them, each with its own id and the changes read from its own data. "
        "What is read back of an entry is what was written: same version, same decoder; legacy changes keep id, deletion and collection. Failures are returned.")
ASSUME = ["nebari's log scan visits the entries of the range in order until told to stop; C07 and C15 for what is written to the log.",
          "pot and bincode read back what they wrote."]
L = "bonsaidb_local::"
DB = L + "database::Database"
CONN = "bonsaidb_core::connection::Connection"
COMPAT = L + "database::compat::"
EX = "bonsaidb_core::transaction::Executed"
LOG = "nebari::transaction::manager::TransactionManager::<Manager>::"
DE = COMPAT + "deserialize_executed_transaction_changes"
DEFAULT, MAX = 100, 1000


def check(ctx):
    TT = ctx.terms(opaque=LOSSY | {DE, "nebari::roots::Roots::<File>::transactions", "core::cmp::Ord::min", "core::option::Option::<T>::unwrap_or", "<u32 as core::cmp::Ord>::min"})
    listing(ctx, TT)
    last(ctx, TT)
    written(ctx)
    legacy(ctx)
    iterate(ctx)


def nums(ctx):
    return DEFAULT, MAX


def num(TT, t):
    t = TT.norm(t)
    try:
        return int(str(t.d[0])) if t.k == "con" else None
    except ValueError:
        return None


def own_log(TT, t, b):
    """the transactions of the database itself"""
    t = TT.norm(t)
    return has_call(TT, t, "transactions") and any(x.k == "par" and x.d[:2] == (b.h, 1) for d in (0, 1) for x in TT.walk(t, d))


def capped(TT, b, t, li):
    """min(limit or the default, the maximum), whichever way around"""
    t = strips(TT, t)
    if t.k == "call" and short(t.d[0]) == "min" and len(t.d[1]) == 2:
        x, y = (strips(TT, z) for z in t.d[1])
        for p, q in ((x, y), (y, x)):
            if num(TT, p) == MAX and given(TT, b, q, li):
                return True
        return False
    if t.k == "call" and short(t.d[0]) == "clamp" and len(t.d[1]) == 3:
        return given(TT, b, t.d[1][0], li) and num(TT, t.d[1][1]) == 0 and num(TT, t.d[1][2]) == MAX
    if t.k == "call" and short(t.d[0]) == "map_or" and len(t.d[1]) == 3:
        return False
    a = [strips(TT, z) for z in alts(t)]
    return len(a) > 1 and all(capped(TT, b, z, li) or num(TT, z) == DEFAULT for z in a)


def given(TT, b, t, li):
    """the limit, or the default"""
    t = strips(TT, t)
    if t.k == "call" and short(t.d[0]) == "unwrap_or" and len(t.d[1]) == 2:
        return is_limit(TT, b, t.d[1][0], li) and num(TT, t.d[1][1]) == DEFAULT
    if t.k == "call" and short(t.d[0]) == "map_or" and len(t.d[1]) == 3:
        return is_limit(TT, b, t.d[1][0], li) and num(TT, t.d[1][1]) == DEFAULT
    a = [strips(TT, z) for z in alts(t)]
    return len(a) > 1 and all(is_limit(TT, b, z, li) or num(TT, z) == DEFAULT for z in a) and any(is_limit(TT, b, z, li) for z in a) and any(num(TT, z) == DEFAULT for z in a)


def is_limit(TT, b, t, li):
    r, p = fwd.unwrap(strips(TT, t))
    return r.k == "par" and r.d[:2] == (b.h, li)


def listing(ctx, TT):
    b = ctx.method(DB, CONN, "list_executed_transactions")
    if b is None:
        return
    si, li = pidx(b, "starting_id") or 2, pidx(b, "result_limit") or 3
    seen = set()

    def count(t):
        t = strips(TT, t)
        return t.k == "call" and short(t.d[0]) == "len" or t.k == "un" and t.d[0] == "PtrMetadata"

    def gather(k):
        cb, fr = k

        def lim(z):
            return capped(TT, b, z, li)

        def branch(ps, st, o, src, val, ex):
            t = TT.norm(ex.term(st, o))
            f = c30.exhausted(ctx, TT, b, t, li, count, lim)
            if f == "bad":
                ctx.fail("log:limit", ctx.where(cb), "the limit is compared by %s" % show(t)[:60])
            elif f is not None and val in (0, 1):
                return ps.set(full=1 if f(val) else 0)
            return ps

        def step(ps, l, c):
            w = c.where()
            if l == "data":
                t = strips(TT, c.arg(0))
                if not (t.k == "par" and t.d[:2] == (cb.h, 2)):
                    return None
                return [(ps.set(data=v), {(): v}) for v in ((0, 1) if ps.data is None else (ps.data,))]
            if l == "cut":
                ctx.fail("log:gathered", w, "entries are dropped by %s" % short(c.path))
                return [(ps, {})]
            if l == "len":
                return [(ps.set(at=ps.n or 0), {})]
            t = strips(TT, c.arg(1))
            ok = t.k == "par" and t.d[:2] == (cb.h, 2) or any(x.k == "agg" and x.d[0] == EX for x in TT.walk(t, 0)) or t.k == "agg" and all(any(y.k == "par" and y.d[:2] == (cb.h, 2) for y in TT.walk(f, 1)) for _, f in t.d[2])
            ctx.ob("log:entry", ok, w, "what is gathered is %s" % show(t)[:60])
            return [(ps.set(n=(ps.n or 0) + 1), {})]

        def ret(ps, val, st, ex):
            w = ctx.where(cb)
            ctx.ob("log:gathered", ps.data is not None and (ps.n or 0) == ps.data, w, "an entry %s is gathered %d times" % ("that holds data" if ps.data else "without data", ps.n or 0))
            v = val.get(())
            t = TT.norm(ex.term(st, ("c", (0,))))
            f = c30.exhausted(ctx, TT, b, t, li, count, lim)
            if ps.full is not None and v is not None:
                ok = v == 1 - ps.full
            elif f is not None and f != "bad":
                ok = not f(1) and f(0)
            else:
                ok = False
            if ps.data == 0 and v == 1:         # as before this entry
                ok = True
            ctx.ob("log:goes-on", ok and (ps.at or 0) == (ps.n or 0), w, "the scan does not go on exactly while the limit is not reached: %s" % show(t)[:80])
        proto.run(ctx, TT, cb, "log:gather", {"data": ["nebari::transaction::log::LogEntry::<'a>::data"], "push": ["push", "push_back"], "len": ["len"], "cut": c30.CUTS}, step, c11.rec(("data", "n", "full", "at")), need=("data", "push"),
                  frame=fr, branch=branch, ret=ret)

    for some in (0, 1):
        def step(ps, l, c):
            w = c.where()
            if l == "cut":
                ctx.fail("log:all", w, "entries are dropped by %s" % short(c.path))
                return [(ps, {})]
            ctx.ob("log:own", own_log(TT, c.arg(0), b), w, "the log scanned is %s" % show(c.arg(0))[:80])
            ctx.ob("log:from", ranged(ctx, TT, c, b, si, some), w, "the part of the log scanned %s is %s" % ("from an id" if some else "as a whole", show(c.arg(1))[:80]))
            k = c.ex.callables(c.st, c.fr, c.args[2])
            if len(k) != 1:
                ctx.fail("log:gather", w, "what is done with the entries is not known")
            elif k[0][0] not in seen:
                h, cf, ops = k[0]
                seen.add(h)
                gather((ctx.F.bodies[h], TT.frame(ctx.F.bodies[h], c.fr, None, tuple((cf, o) for o in ops), ("many", c.bb), None)))
            return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]

        def branch(ps, st, o, src, val, ex):
            t = TT.norm(ex.term(st, o))
            if t.k == "bin" and t.d[0] in ("Gt", "Ne", "Eq", "Lt", "Le", "Ge"):
                x, y = t.d[1]
                op = t.d[0]
                if num(TT, x) == 0:
                    x, y, op = y, x, {"Gt": "Lt", "Lt": "Gt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                if num(TT, y) == 0 and (capped(TT, b, x, li) or given(TT, b, x, li)):
                    z = {"Gt": 1 - val, "Ne": 1 - val, "Eq": val, "Le": val}.get(op)
                    return ps.set(zero=z) if z is not None else ps
                if num(TT, y) == 1 and capped(TT, b, x, li) and op in ("Lt", "Ge"):
                    return ps.set(zero=val if op == "Lt" else 1 - val)
            if num(TT, t) is None and capped(TT, b, t, li):
                return ps.set(zero=1 if val == 0 else 0)
            return ps

        def ret(ps, val, st, ex):
            if val.get(()) == 1:
                return
            w = ctx.where(b)
            ctx.ob("log:read", not ps.bad and (ps.read == 1 or ps.zero == 1), w, "transactions are listed without having scanned the log once")
            if ps.read:
                t = TT.norm(ex.term(st, ("c", (0,))))
                lv, calls = Prov(ctx, TT, b).of(t)
                bad = sorted(calls & set(SELECT) - {"filter_map", "flatten"}) + sorted(x for x in calls if x.startswith("swallowed"))
                ctx.ob("log:all", not bad, w, "what was gathered is cut by %s" % bad)
        proto.run(ctx, TT, b, "log:%s" % ("from" if some else "whole"), {"scan": [LOG + "scan"], "cut": c30.CUTS}, step, c11.rec(("read", "bad", "zero")), need=("scan",), branch=branch, ret=ret, vals={si: {(): some}})
    ctx.floor("log:gathers", len(seen), 1)
    executed(ctx, TT, b)


def executed(ctx, TT, b):
    """executed transactions are made of an entry's own id and changes, and only if those can be read"""
    F = ctx.F
    made = set()

    def calls(x):
        return [(x, t[1][1]) for bl in x.blocks if bl for t in [bl[1]] if t and t[0] == "call" and t[1][0] == "k" and hasattr(t[1][1], "h")]

    def tree(x):
        return [x] + [z for y in F.children.get(x.h, []) for z in tree(y)]
    bodies, todo = [], [b]
    while todo:
        x = todo.pop()
        if x in bodies:
            continue
        for y in tree(x):
            bodies.append(y)
            todo += [F.bodies[h] for _, f in calls(y) for h in [f.rh or f.h] if h in F.bodies and F.bodies[h].path.startswith(L + "database::") and F.bodies[h].path != DE and F.bodies[h] not in bodies]
    # where reading an entry can fail, the failure is handed on
    names, done = [DE], set()
    while names:
        n = names.pop()
        for x in bodies:
            if (x.h, n) in done or not any(f.rpath == n or f.path == n for _, f in calls(x)):
                continue
            done.add((x.h, n))

            def step(ps, l, c):
                return [(ps, res_ok()), (ps.set(bad=1), res_err())]

            def ret(ps, val, st, ex):
                ctx.ob("log:readable", not ps.bad or val.get(()) == 1, ctx.where(x), "an entry that cannot be read is left out")
            proto.run(ctx, TT, x, "log:readable", {"read": [n]}, step, c11.rec(("bad",)), need=("read",), ret=ret)
            if x.kind != "closure" and x is not b:
                names.append(x.path)
    # what an executed transaction is made of
    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == EX:
            w = "%s:%d" % (st.fr.body.file, line)
            made.add(w)
            f = dict(zip(rv[5], rv[6]))
            ids, ch = TT.norm(ex.term(st, f["id"])), TT.norm(ex.term(st, f["changes"]))
            r, p = fwd.unwrap(strips(TT, ids))
            ctx.ob("log:id", bool(p) and p[-1] == "id", w, "the id given is %s" % show(ids)[:60])
            ok = False
            for y in (y for y in TT.walk(ch, 0) if y.k == "call" and y.d[0] == DE):
                d = [z for z in TT.walk(TT.norm(y.d[1][0]), 1) if z.k == "call" and short(z.d[0]) == "data"]
                ok = bool(d) and any(same(TT, fwd.unwrap(strips(TT, z.d[1][0])), (r, p[:-1])) for z in d)
            ctx.ob("log:changes", ok, w, "the changes given are %s" % show(ch)[:80])
        return ps
    proto.run(ctx, TT, b, "log:executed", {"read": [DE], "scan": [LOG + "scan"]}, lambda ps, l, c: [(ps, res_ok()), (ps, res_err())], c11.rec(("x",)), need=("read",), assign=assign)
    ctx.floor("log:executed", len(made), 1)


def same(TT, a, b):
    return (a[0].k, a[0].d[:2] if a[0].k in ("par", "upv") else show(a[0])) == (b[0].k, b[0].d[:2] if b[0].k in ("par", "upv") else show(b[0])) and [x for x in a[1] if x != "*"] == [x for x in b[1] if x != "*"]


def ranged(ctx, TT, c, b, si, some):
    t = TT.norm(c.arg(1))
    out = set()
    for a in alts(t):
        a = strips(TT, a)
        while a.k == "call" and short(a.d[0]) == "from" and a.d[1]:
            a = strips(TT, a.d[1][0])
        f = dict(a.d[2]) if a.k == "agg" else None
        if a.k == "agg" and a.d[0].endswith("RangeFull"):
            out.add("all")
        elif a.k == "con" and "RangeFull" in str(a.d[0]):
            out.add("all")
        elif f is not None and a.d[0].endswith("RangeFrom"):
            out.add("from" if is_limit(TT, b, f["start"], si) else "zero" if num(TT, f["start"]) == 0 else "bad")
        elif f is not None and {"start", "end"} <= set(f):
            if any(strips(TT, y).k != "agg" or strips(TT, y).d[1] != "Unbounded" for y in alts(TT.norm(f["end"]))):
                return False
            for x in alts(TT.norm(f["start"])):
                x = strips(TT, x)
                if x.k != "agg":
                    return False
                out.add("all" if x.d[1] == "Unbounded" else "from" if x.d[1] == "Included" and is_limit(TT, b, dict(x.d[2])["0"], si) else "bad")
        elif a.k == "call" and short(a.d[0]) == "map_or" and len(a.d[1]) == 3 and is_limit(TT, b, a.d[1][0], si):
            z = [short(TT.norm(x).d[0]) if TT.norm(x).k == "agg" else "" for x in a.d[1][1:2]]
            out |= {"all", "from"}
        else:
            return False
    return out <= {"all", "from"} and (("from" in out) if some else ("all" in out))


def last(ctx, TT):
    b = ctx.method(DB, CONN, "last_transaction_id")
    if b is None:
        return
    t = TT.norm(TT.local(TT.frame(b, None, None), 0, ()))
    ok = 0
    for a in alts(t):
        a = strips(TT, a)
        if a.k == "agg" and a.d[1] == "Err" or a.k == "call" and short(a.d[0]) == "from_residual":
            continue
        good = a.k == "call" and short(a.d[0]) == "current_transaction_id" and own_log(TT, a.d[1][0], b)
        ctx.ob("last:id", good, ctx.where(b), "the last transaction's id is %s" % show(a)[:80])
        ok += 1
    ctx.floor("last:ids", ok, 1)


# ---- what an entry holds -------------------------------------------------------------------------------
def written(ctx):
    TT = ctx.terms(opaque=LOSSY)
    s, d = ctx.need(COMPAT + "serialize_executed_transaction_changes"), ctx.need(DE)
    if s is None or d is None:
        return
    V = c30.names(ctx, COMPAT + "ChangesVersions")
    CH = "bonsaidb_core::transaction::Changes"
    vs = set()

    def step(ps, l, c):
        w = c.where()
        if l == "header":
            t = strips(TT, c.arg(0))
            if t.k == "agg":
                vs.add(t.d[1])
            elif t.k == "con":
                vs.add(str(t.d[0]).rsplit("::", 1)[-1])
            ctx.ob("written:order", not ps.head and not ps.body, w, "the version is not what is written first")
            return [(ps.set(head=1), res_ok()), (ps.set(bad=1), res_err())]
        i = 0 if l == "writer" else 0
        ctx.ob("written:changes", is_par(TT, s, c.arg(i), 1), w, "what is written is %s" % show(c.arg(i))[:60])
        ctx.ob("written:order", ps.head == 1 and not ps.body, w, "what is written does not follow its version once")
        return [(ps.set(body=1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("written:done", ps.head == 1 and ps.body == 1 and not ps.bad, ctx.where(s), "changes are written without their version, or not at all")
    proto.run(ctx, TT, s, "written", {"header": ["transmog_versions::write_header"], "writer": ["pot::to_writer", "pot::ser::to_writer"]}, step, c11.rec(("head", "body", "bad")), need=("header", "writer"), ret=ret)
    ctx.ob("written:version", len(vs) == 1 and vs <= set(V), ctx.where(s), "the version written is %s" % sorted(vs))
    cur = V.index(sorted(vs)[0]) if len(vs) == 1 and vs <= set(V) else 1

    for ver in range(len(V) + 1):
        def step2(ps, l, c):
            w = c.where()
            if l == "unwrap":
                ctx.ob("read:data", is_par(TT, d, c.arg(0), 1), w, "what is read is %s" % show(c.arg(0))[:60])
                return [(ps, {(("f", 0),): ver})]
            t = TT.norm(c.arg(0))
            ctx.ob("read:body", t.k == "fld" and t.d[1] == "1" and has_call(TT, t, "unwrap_version"), w, "what is decoded is %s" % show(t)[:60])
            ty = " ".join(a.s for a in c.fn.args if hasattr(a, "s"))
            kind = "current" if CH in ty.replace(CH + "V0", "") and "ChangesV0" not in ty else "legacy"
            return [(ps.set(how=kind), res_ok()), (ps.set(bad=1 if l == "bincode" or kind == "current" else ps.bad), res_err())]

        def ret2(ps, val, st, ex):
            w = ctx.where(d)
            if val.get(()) == 1:
                return
            ctx.ob("read:version-%s" % (V[ver] if ver < len(V) else "unknown"), ver < len(V) and ps.how == ("current" if ver == cur else "legacy") and not ps.bad, w, "an entry of version %d is read as %s" % (ver, ps.how))
        proto.run(ctx, TT, d, "read:%d" % ver, {"unwrap": ["transmog_versions::unwrap_version"], "pot": ["pot::from_slice", "pot::de::from_slice"], "bincode": ["bincode::deserialize"]}, step2, c11.rec(("how", "bad")), need=("unwrap",), ret=ret2, reach_extra=lambda x: "ChangesVersions as " in x.path)


def legacy(ctx):
    """changes of the first format are kept"""
    TT = ctx.terms(opaque=LOSSY)
    b = next((x for x in ctx.F.bodies.values() if x.path.startswith("<bonsaidb_core::transaction::Changes as core::convert::TryFrom<") and "ChangesV0" in x.path and x.kind != "closure"), None)
    if b is None:
        b = next((x for x in ctx.F.bodies.values() if "compat" in x.path and x.path.endswith("::try_from") and x.argc == 1 and x.locals[1].peel().adt == COMPAT + "ChangesV0"), None)
    if b is None:
        return ctx.fail("legacy:conversion", "", "the conversion of legacy changes is not found")
    CD = "bonsaidb_core::transaction::ChangedDocument"

    def own(t, f):
        r, p = fwd.unwrap(strips(TT, t))
        return f in p and r.k == "par"

    def step(ps, l, c):
        w = c.where()
        if l == "next":
            if ps.item == 1:
                ctx.ob("legacy:each", ps.n == 1, w, "a change is kept %d times" % (ps.n or 0))
            return [(ps.set(item=1, n=0, known=None, len=None), {(): 1}), (ps.set(item=0), {(): 0})]
        if l == "get":
            ctx.ob("legacy:collection", any(x.k == "fld" and x.d[1] == "collection" for x in TT.walk(TT.norm(c.arg(1)), 1)), w, "the collection looked up is %s" % show(c.arg(1))[:60])
            return [(ps.set(known=v), {(): v}) for v in (0, 1)]
        if l == "insert":
            ctx.ob("legacy:collection", any(x.k == "fld" and x.d[1] == "collection" for x in TT.walk(TT.norm(c.arg(1)), 1)) and has_call(TT, c.arg(2), "len"), w, "the index kept for a collection is %s" % show(c.arg(2))[:60])
            ctx.ob("legacy:index", ps.known != 1, w, "a collection gets a second index")
            return [(ps, {})]
        ty = c.fn.args[0].s if c.fn.args and hasattr(c.fn.args[0], "s") else ""
        t = TT.norm(c.arg(1))
        if "CollectionName" in ty:
            ctx.ob("legacy:collection", own(t, "collection") or any(x.k == "fld" and x.d[1] == "collection" for x in TT.walk(t, 1)), w, "the collection kept is %s" % show(t)[:60])
            return [(ps, {})]
        a = [x for x in alts(t) if x.k == "agg" and x.d[0] == CD]
        if not a:
            return None
        f = dict(a[0].d[2])
        ctx.ob("legacy:id", any(x.k == "fld" and x.d[1] == "id" for x in TT.walk(TT.norm(f["id"]), 2)), w, "the id kept is %s" % show(f["id"])[:60])
        ctx.ob("legacy:deleted", TT.norm(f["deleted"]).k == "fld" and TT.norm(f["deleted"]).d[1] == "deleted", w, "a change is kept as deleted=%s" % show(f["deleted"])[:60])
        return [(ps.set(n=(ps.n or 0) + 1), {})]

    def ret(ps, val, st, ex):
        pass
    proto.run(ctx, TT, b, "legacy", {"next": [proto.ITER], "get": ["get"], "insert": ["insert"], "push": ["push"]}, step, c11.rec(("item", "n", "known", "len")), need=("next", "push"), ret=ret)


def iterate(ctx):
    """the changes of a transaction are those kept, each with its own collection"""
    TT = ctx.terms(opaque=LOSSY)
    DC = "bonsaidb_core::transaction::DocumentChanges"
    g = ctx.need(DC + "::get")
    into = ctx.method("bonsaidb_core::transaction::DocumentChangesIntoIter", "core::iter::traits::iterator::Iterator", "next")
    for b, src in ((g, "documents"), (into, "documents")):
        if b is None:
            continue
        t = TT.norm(TT.local(TT.frame(b, None, None), 0, ()))
        xs = list(inner(ctx, TT, t))
        idx = [x for x in xs if x.k == "call" and short(x.d[0]) == "get" and any(y.k == "fld" and y.d[1] == "collections" for y in TT.walk(TT.norm(x.d[1][0]), 2))]
        ok = bool(idx) and all(any(y.k == "fld" and y.d[1] == "collection" for y in TT.walk(TT.norm(x.d[1][1]), 3)) and not any(y.k == "bin" for y in TT.walk(TT.norm(x.d[1][1]), 3)) for x in idx)
        ctx.ob("changes:collection", ok, ctx.where(b), "the collection of a change is %s" % show(t)[:80])
        bad = sorted({short(x.d[0]) for x in xs if x.k == "call"} & set(SELECT))
        ctx.ob("changes:all", not bad, ctx.where(b), "changes are cut by %s" % bad)
        ctx.ob("changes:document", any(x.k == "fld" and x.d[1] == src for x in xs), ctx.where(b), "the change given is %s" % show(t)[:80])
    n = next((x for x in ctx.F.bodies.values() if x.path.startswith("<bonsaidb_core::transaction::DocumentChangesIter<") and x.path.endswith("::next")), None)
    if n is None:
        n = ctx.method("bonsaidb_core::transaction::DocumentChangesIter", "core::iter::traits::iterator::Iterator", "next")
    if n is None:
        return
    xs = []
    for x in [n] + ctx.F.children.get(n.h, []):
        for bl in x.blocks:
            t = bl[1] if bl else None
            if t and t[0] == "call" and t[1][0] == "k":
                xs.append((x, t))
    add = [(x, t) for x, t in xs if short(t[1][1].path) in ("checked_add", "saturating_add", "wrapping_add")]
    for x, t in add:
        v = num(TT, TT.op(TT.frame(x, None, None), t[2][1]))
        ctx.ob("changes:next", v == 1, ctx.where(x, t[5]), "the iteration goes on %s further" % v)
    for x, t in xs:
        if short(t[1][1].path) == "get":
            z = TT.norm(TT.op(TT.frame(x, None, None), t[2][1]))
            ctx.ob("changes:at", z.k != "bin", ctx.where(x, t[5]), "the change given is that at %s" % show(z)[:40])
