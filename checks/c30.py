"""C30: reading returns what was asked for."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c17
import fwd
import proto
from prov import LOSSY, SELECT, Prov, inner

EXPLAIN = ("The reading operations of the local database are explored over compiler MIR on every path, with each order, limit and kind of key, and each step succeeding and failing. "
           "The closures a scan is given are explored on their own, with every combination of an entry being deleted, a limit being given and it being reached; "
           "what is read and what is returned is compared, as provenance terms, with what was asked for.")
RULE = ("A scan covers the range asked for, forwards exactly if the order is ascending; every entry is evaluated as read, unless it is a deleted document, or the limit is given and reached by the "
        "number of entries read so far; every entry read is returned, decoded, once. Keys asked for are all looked up, and what is found is ordered as asked. A query returns each mapping of each entry "
        "with its key, up to the limit; a reduction reduces each entry's value; deleting through a view deletes each document found once. Errors are returned.")
ASSUME = ["nebari's scan evaluates each key of the range once, in the given direction, deleted ones of versioned trees included (with position 0), and reads those evaluated as ReadData.",
          "nebari's get, get_multiple and reduce return what is stored; get_multiple in no particular order.", "C10 to C13 for what the view entries are."]
L = "bonsaidb_local::"
DB = L + "database::Database"
LL = "bonsaidb_core::connection::lowlevel::LowLevelConnection"
EVAL = "nebari::tree::ScanEvaluation"
DESER = L + "database::deserialize_document"
TREE = "nebari::roots::Tree::<Root, File>::"
SORTS = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")
CUTS = ["alloc::vec::Vec::<T, A>::" + x for x in ("truncate", "clear", "pop", "retain", "retain_mut", "swap_remove", "remove", "split_off", "set_len", "extract_if")]      # elements are lost
ASC = {"Ascending": 1, "Descending": 0}
CMP = {"Ge": lambda a: a, "Lt": lambda a: not a, "Eq": lambda a: a, "Ne": lambda a: not a}
FLIP = {"Ge": "Le", "Le": "Ge", "Lt": "Gt", "Gt": "Lt", "Eq": "Eq", "Ne": "Ne"}


def check(ctx):
    TT = ctx.terms(opaque=LOSSY | {DESER, DB + "::create_view_iterator", L + "views::view_entries_tree_name", "bonsaidb_core::schema::schematic::Schematic::view_by_name"} |
                   {"<%s as %s>::%s" % (DB, LL, n) for n in ("query_by_name", "get_multiple_from_collection", "apply_transaction", "reduce_grouped_by_name")})
    ctx.variants = {v: i for i, v in enumerate(names(ctx, EVAL))}
    for n in ("list_from_collection", "list_headers_from_collection"):
        listing(ctx, TT, n)
    counting(ctx, TT)
    getting(ctx, TT)
    several(ctx, TT)
    entries(ctx, TT)
    each(ctx, TT)
    query(ctx, TT)
    with_docs(ctx, TT)
    reducing(ctx, TT)
    deleting(ctx, TT)


def names(ctx, adt):
    a = ctx.F.adts.get(adt)
    return [v[0] if isinstance(v, (list, tuple)) else v["name"] if isinstance(v, dict) else v for v in a["variants"]] if a else ["ReadData", "Skip", "Stop"]


def method(ctx, n):
    return ctx.method(DB, LL, n)


def is_par(TT, b, t, i):
    return c17.par(TT, b, t, i)


def pidx(b, name):
    """the parameter called `name`"""
    for i in range(1, b.argc + 1):
        if b.names.get(i) == name:
            return i
    return None


def strips(TT, t):
    """t without conversions and whole slices"""
    t = c17.strip(TT, t)
    while t.k == "call" and short(t.d[0]) in ("index", "as_slice", "as_ref", "borrow", "borrow_as_bytes", "deref", "try_from", "into", "unwrap") and t.d[1]:
        t = c17.strip(TT, t.d[1][0])
    return t


def covers(ctx, TT, b, t, i):
    """t is the range parameter i holds, or a part of it, bound by bound"""
    t = TT.norm(t)
    for a in alts(t):
        a = c17.strip(TT, a)
        if a.k == "agg" and "Range" in a.d[0]:
            f = dict(a.d[2])
            for side in ("start", "end"):
                if side not in f:
                    return False
                got = set()
                for x in alts(TT.norm(f[side])):
                    x = c17.strip(TT, x)
                    if x.k != "agg" or x.d[1] not in ("Included", "Excluded", "Unbounded"):
                        if x.k == "fld" and x.d[1] == side and ends_par(TT, b, x, i):
                            got = {"Included", "Excluded", "Unbounded"}
                            continue
                        return False
                    if x.d[1] != "Unbounded":
                        r, path = fwd.unwrap(strips(TT, dict(x.d[2])["0"]))
                        path = [p for p in path if p not in ("*", "0")]
                        if not (r.k == "par" and r.d[0] == b.h and r.d[1] == i and path[-2:] == [side, x.d[1]]):
                            return False
                    got.add(x.d[1])
                if got != {"Included", "Excluded", "Unbounded"}:
                    return False
        elif not ends_par(TT, b, a, i):
            return False
    return True


def ends_par(TT, b, t, i):
    r, path = fwd.unwrap(strips(TT, t))
    return r.k == "par" and r.d[0] == b.h and r.d[1] == i


def by_closure(ctx, TT, b, t, lim, count):
    """limit.map_or(false, |limit| ...) and the like"""
    if t.k != "call" or short(t.d[0]) not in ("map_or", "is_some_and") or not t.d[1] or not limit_of(TT, b, t.d[1][0], lim):
        return None
    if short(t.d[0]) == "map_or":
        z = TT.norm(t.d[1][1])
        if not (z.k == "con" and str(z.d[0]) in ("0", "false")):
            return "bad"
    k = TT.norm(t.d[1][-1])
    if k.k != "clo" or k.x is None:
        return None
    h, cf, ops = k.x
    fr = TT.frame(ctx.F.bodies[h], cf, None, tuple((cf, o) for o in ops), ("limit",))
    return exhausted(ctx, TT, b, TT.norm(TT.local(fr, 0, ())), lim, count, lambda z: (lambda y: y.k == "par" and y.d[:2] == (h, 2))(strips(TT, z)))


def exhausted(ctx, TT, b, t, lim, count, isl=None):
    """None, or f(value of t) -> whether the limit is reached; t compares the limit with what count() recognizes"""
    if t.k == "un" and t.d[0] == "Not":
        f = exhausted(ctx, TT, b, TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), lim, count, isl)
        return None if f is None else f if f == "bad" else (lambda v: f(0 if v else 1))
    if isl is None:
        f = by_closure(ctx, TT, b, t, lim, count)
        if f is not None:
            return f
    if t.k != "bin" or t.d[0] not in FLIP:
        return None
    op, (x, y) = t.d[0], t.d[1]
    il = [isl(z) if isl else limit_of(TT, b, z, lim) for z in (x, y)]
    ic = [count(z) for z in (x, y)]
    if il[1] and ic[0]:
        pass
    elif il[0] and ic[1]:
        op = FLIP[op]
    else:
        return None
    return CMP.get(op, "bad")


def limit_of(TT, b, t, lim):
    t = strips(TT, t)
    r, p = fwd.unwrap(t)
    return lim is not None and r.k == "par" and r.d[0] == b.h and r.d[1] == lim


def limits(TT, b, k, lim):
    """(limit given, values of the captured variables of the closure k = (body, frame, captured in, operands))"""
    cb, fr, cf, ops = k
    at = [i for i, o in enumerate(ops) if limit_of(TT, b, TT.op(cf, o), lim)] if lim is not None else []
    if not at:
        return [(None, {})]
    return [(v, {1: {(("f", i),): v for i in at}}) for v in (0, 1)]


def is_int(ty):
    return ty.s.lstrip("&").replace("mut ", "") in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128")


def scan(ctx, TT, b, pre, c, lim, item, tomb):
    """the closures a scan is given"""
    F, w = ctx.F, c.where()
    V = ctx.variants
    clos = []
    for i in (3, 4, 5):
        k = c.ex.callables(c.st, c.fr, c.args[i]) if i < len(c.args) else []
        if len(k) != 1:
            ctx.fail("%s:closures" % pre, w, "what is scanned for is not known")
            return
        h, cf, ops = k[0]
        clos.append((F.bodies[h], TT.frame(F.bodies[h], c.fr, None, tuple((cf, o) for o in ops), ("many", c.bb), None), cf, ops))

    # every node is looked into
    nb, nf = clos[0][:2]
    proto.run(ctx, TT, nb, pre + ":nodes", {}, lambda ps, l, c2: None, 0, frame=nf,
              ret=lambda ps, val, st, ex: ctx.ob("%s:nodes" % pre, val.get(()) == V["ReadData"], ctx.where(nb), "a part of the tree is left out"))

    kb, kf = clos[1][:2]

    def count(t):
        t = strips(TT, t)
        return t.k == "con" and str(t.d[0]) == "0"

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if t.k == "disc" and limit_of(TT, b, t.d[0] if not isinstance(t.d[0], tuple) else t.d[0][0], lim):
            return ps.set(lim=val)
        f = exhausted(ctx, TT, b, t, lim, count)
        if f == "bad":
            ctx.fail("%s:limit" % pre, ctx.where(kb), "the limit is compared by %s" % show(t)[:60])
            return ps
        if f is not None and val in (0, 1):
            return ps.set(full=1 if f(val) else 0, late=1 if ps.inc else 0)
        if t.k == "bin" and t.d[0] in ("Eq", "Ne", "Gt", "Lt"):
            x, y = (TT.norm(z) for z in t.d[1])
            zero = [z.k == "con" and str(z.d[0]) == "0" for z in (x, y)]
            pos = [z.k == "fld" and z.d[1] == "position" or z.k == "call" and short(z.d[0]) == "position" for z in (x, y)]
            op = t.d[0]
            if pos[1] and zero[0]:
                op = FLIP[op]
            elif not (pos[0] and zero[1]):
                return ps
            if op == "Eq":
                return ps.set(dead=1 if val else 0)
            if op in ("Ne", "Gt"):
                return ps.set(dead=0 if val else 1)
        return ps

    def assign(ps, st, place, rv, line, ex):
        if st.fr.body.locals[place[0]].s.startswith("&mut") and any(e[0] == "*" for e in place[1:]) and is_int(st.fr.body.locals[place[0]]) or \
                any(e[0] == "*" for e in place[1:]) and rv[0] in ("use", "bin") and rv[0] != "agg" and counts(st, rv, ex):
            return ps.set(inc=(ps.inc or 0) + 1 if counts(st, rv, ex) else 9)
        return ps

    def counts(st, rv, ex):
        ts = [TT.norm(ex.term(st, o)) for o in rv[1:] if isinstance(o, tuple) and o and o[0] in ("c", "m", "k")]
        for t in ts:
            while t.k == "fld":
                t = TT.norm(t.d[0])
            if t.k == "bin" and t.d[0].startswith("Add"):
                z = [TT.norm(x) for x in t.d[1]]
                if any(count(x) for x in z) and any(x.k == "con" and str(x.d[0]) == "1" for x in z):
                    return True
            if t.k == "call" and short(t.d[0]) in ("saturating_add", "wrapping_add") and len(t.d[1]) == 2 and count(t.d[1][0]) and TT.norm(t.d[1][1]).k == "con" and str(TT.norm(t.d[1][1]).d[0]) == "1":
                return True
        if rv[0] == "bin" and str(rv[1]).startswith("Add"):
            z = [TT.norm(ex.term(st, o)) for o in (rv[2] if isinstance(rv[2], tuple) and rv[2] and isinstance(rv[2][0], tuple) else rv[2:])]
            return any(count(x) for x in z) and any(x.k == "con" and str(x.d[0]) == "1" for x in z)
        return False

    def ret(ps, val, st, ex):
        v = val.get(())
        w2 = ctx.where(kb)
        if v == V["ReadData"]:
            if tomb:
                ctx.ob("%s:deleted" % pre, ps.dead == 0 or ps.lim == 0 and ps.inc is None, w2, "a deleted document counts as one that is read")
            ctx.ob("%s:limit" % pre, lim is None or ps.lim == 0 or ps.lim == 1 and ps.full == 0, w2, "an entry is read although the limit is reached, or was not looked at")
            ctx.ob("%s:counted" % pre, ps.lim != 1 or ps.inc == 1 and not ps.late, w2, "an entry that is read is not counted once")
        elif v == V["Skip"]:
            ctx.ob("%s:skipped" % pre, tomb and ps.dead == 1, w2, "an entry is left out")
            ctx.ob("%s:skipped-counted" % pre, ps.inc is None, w2, "an entry that is left out is counted")
        elif v == V["Stop"]:
            ctx.ob("%s:stopped" % pre, ps.lim == 1 and ps.full == 1, w2, "the scan ends although the limit is not reached")
        else:
            ctx.fail("%s:evaluated" % pre, w2, "how an entry is evaluated is not known")
    for v, vals in limits(TT, b, clos[1], lim):
        proto.run(ctx, TT, kb, pre + ":keys", {}, lambda ps, l, c2: None, c11.rec(("lim", "full", "dead", "inc", "late"), lim=v), frame=kf, branch=branch, assign=assign, ret=ret, prims=True, vals=vals)

    db, df = clos[2][:2]

    def dstep(ps, l, c2):
        if l == "cut":
            ctx.fail("%s:returned" % pre, c2.where(), "entries that were read are dropped by %s" % short(c2.path))
            return [(ps, {})]
        if l == "deser":
            ctx.ob("%s:decoded" % pre, strips(TT, c2.arg(0)).k == "par" and strips(TT, c2.arg(0)).d[:2] == (db.h, 4), c2.where(), "what is decoded is %s" % show(c2.arg(0))[:60])
            return [(ps.set(dec=1), res_ok()), (ps.set(dec=0), res_err())]
        t = TT.norm(c2.arg(1))
        ctx.ob("%s:returned" % pre, item(db, t), c2.where(), "what is returned of an entry is %s" % show(t)[:80])
        return [(ps.set(n=(ps.n or 0) + 1), {})]

    def dret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("%s:returned" % pre, ps.n == 1 and ps.dec != 0, ctx.where(db), "an entry that is read is returned %s times" % (ps.n or 0))
        else:
            ctx.ob("%s:failed" % pre, ps.dec == 0, ctx.where(db), "reading an entry fails")
    proto.run(ctx, TT, db, pre + ":data", {"deser": [DESER], "push": ["push", "push_back", "insert"], "cut": CUTS}, dstep, c11.rec(("dec", "n")), need=("push",), frame=df, ret=dret)


def direction(ctx, TT, c, i, order, b, s):
    """whether the argument i is true exactly for ascending order"""
    v = c.ex.opval(c.st.env, c.fr, c.args[i]).get(())
    if v is not None:
        return v == ASC[order]
    t = TT.norm(c.arg(i))
    neg = False
    while t.k == "un" and t.d[0] == "Not":
        neg, t = not neg, TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1])
    if t.k == "call" and short(t.d[0]) in ("eq", "ne") and len(t.d[1]) == 2:
        x = [strips(TT, z) for z in t.d[1]]
        o = [z for z in x if z.k == "agg" and z.d[1] in ASC]
        if len(o) == 1 and any(ends_par(TT, b, z, s) for z in x):
            return (o[0].d[1] == "Ascending") == ((short(t.d[0]) == "eq") != neg)
    return False


def own_tree(ctx, TT, b, t):
    t = TT.norm(t)
    return any(x.k == "call" and short(x.d[0]) == "tree" for x in TT.walk(t, 0))


def listing(ctx, TT, n):
    b = method(ctx, n)
    if b is None:
        return
    ids, srt, lim = pidx(b, "ids") or 2, pidx(b, "sort") or 3, pidx(b, "limit") or 4

    def item(db, t):
        want = "header" if "headers" in n else None
        d = [x for x in TT.walk(t, 1) if x.k == "call" and x.d[0] == DESER]
        if want:
            return bool(d) and any(x.k == "fld" and x.d[1] == "header" for x in inner(ctx, TT, t))
        return bool(d) and not any(x.k == "call" and short(x.d[0]) == "default" for x in TT.walk(t, 1))
    for order in ASC:
        done = set()

        def step(ps, l, c):
            w = c.where()
            if l == "cut":
                ctx.ob("%s:whole" % n, short(c.path) == "truncate" and limit_of(TT, b, c.arg(1), lim), w, "documents that were read are dropped by %s" % short(c.path))
                return [(ps, {})]
            ctx.ob("%s:range" % n, covers(ctx, TT, b, c.arg(1), ids), w, "the range read is %s" % show(c.arg(1))[:80])
            ctx.ob("%s:order" % n, direction(ctx, TT, c, 2, order, b, srt), w, "for %s order, the scan goes the other way" % order.lower())
            if c.bb not in done:
                done.add(c.bb)
                if order == "Ascending":
                    scan(ctx, TT, b, n, c, lim, item, True)
            return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("%s:done" % n, ps.read == 1 and not ps.bad, ctx.where(b), "documents are listed without having been read once")
                whole(ctx, TT, b, n, st, ex)
        proto.run(ctx, TT, b, "%s:%s" % (n, order), {"scan": [TREE + "scan"], "cut": CUTS}, step, c11.rec(("read", "bad")), need=("scan",), ret=ret, vals={srt: {(): sorted(ASC).index(order)}})


PASSED = set(SELECT) | {"passed over"}


def whole(ctx, TT, b, n, st, ex):
    """what is returned is all that was gathered"""
    t = TT.norm(ex.term(st, ("c", (0,))))
    bad = sorted({short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call"} & set(SELECT))
    ctx.ob("%s:whole" % n, not bad, ctx.where(b), "what was read is cut by %s" % bad)


def counting(ctx, TT):
    b = method(ctx, "count_from_collection")
    if b is None:
        return
    cs = c17.one(ctx, TT, b, {TREE + "reduce"})
    ctx.floor("counts", len(cs), 1)
    for bb, t, args in cs:
        ctx.ob("count:range", covers(ctx, TT, b, args[1], pidx(b, "ids") or 2), ctx.where(bb, t[5]), "what is counted is %s" % show(args[1])[:80])
    t = TT.norm(TT.local(TT.frame(b, None, None), 0, ()))
    good = [strips(TT, a) for a in alts(t) if not (a.k == "agg" and a.d[1] == "Err")]
    ctx.ob("count:alive", bool(good) and all(a.k == "fld" and a.d[1] == "alive_keys" and any(x.k == "call" and short(x.d[0]) == "reduce" for x in TT.walk(a, 0)) for a in good if a.k != "call" or short(a.d[0]) != "from_residual"), ctx.where(b), "the count is %s" % show(t)[:80])


def getting(ctx, TT):
    b = method(ctx, "get_from_collection")
    if b is None:
        return

    def step(ps, l, c):
        if l == "get":
            ctx.ob("get:id", ends_par(TT, b, c.arg(1), pidx(b, "id") or 2), c.where(), "what is looked up is %s" % show(c.arg(1))[:60])
            n = (("v", 0), ("f", 0))
            return [(ps.set(got=1), {**res_ok(), n: 1}), (ps.set(got=0), {**res_ok(), n: 0}), (ps.set(bad=1), res_err())]
        t = strips(TT, c.arg(0))
        ctx.ob("get:decoded", any(x.k == "call" and short(x.d[0]) == "get" for x in TT.walk(t, 0)), c.where(), "what is decoded is %s" % show(t)[:60])
        return [(ps.set(dec=1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            some = val.get((("v", 0), ("f", 0)))
            ctx.ob("get:found", not ps.bad and (ps.got == 1 and some == 1 and ps.dec == 1 or ps.got == 0 and some == 0), ctx.where(b), "a document that %s is returned as %s" % ("exists" if ps.got else "does not exist", "found" if some else "missing"))
    proto.run(ctx, TT, b, "get", {"get": [TREE + "get"], "dec": [DESER]}, step, c11.rec(("got", "dec", "bad")), need=("get", "dec"), ret=ret)


def several(ctx, TT):
    b = method(ctx, "get_multiple_from_collection")
    if b is None:
        return
    i = pidx(b, "ids") or 2

    def step(ps, l, c):
        w = c.where()
        if l == "sort":
            return [(ps.set(sorted=1), {})]
        if l == "cut":
            ctx.fail("several:all", w, "ids or documents are dropped by %s" % short(c.path))
            return [(ps, {})]
        if l == "get":
            lv, calls = Prov(ctx, TT, b).of(c.arg(1))
            ctx.ob("several:ids", "p%d" % i in lv and not calls & PASSED, w, "what is looked up is %s" % show(c.arg(1))[:80])
            ctx.ob("several:sorted", ps.sorted == 1, w, "the ids are looked up unsorted")
            return [(ps.set(got=1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) != 1:
            ctx.ob("several:done", ps.got == 1 and not ps.bad, ctx.where(b), "documents are returned without having been looked up")
            t = TT.norm(ex.term(st, ("c", (0,))))
            lv, calls = Prov(ctx, TT, b).of(t)
            ctx.ob("several:all", not calls & PASSED and not [x for x in calls if x.startswith("swallowed")] and "get_multiple" in calls and short(DESER) in calls, ctx.where(b), "what is returned is %s" % show(t)[:80])
    proto.run(ctx, TT, b, "several", {"sort": SORTS, "get": [TREE + "get_multiple"], "cut": CUTS}, step, c11.rec(("sorted", "got", "bad")), need=("get",), ret=ret)


KEYS = ("Range", "Matches", "Multiple")


def entries(ctx, TT):
    b = ctx.need(DB + "::create_view_iterator")
    if b is None:
        return
    ki, oi, li = pidx(b, "key") or 2, pidx(b, "order") or 3, pidx(b, "limit") or 4
    V = names(ctx, "bonsaidb_core::connection::SerializedQueryKey")
    kinds = [None] + [k for k in V] if set(V) == set(KEYS) else [None] + list(KEYS)
    for kind in kinds:
        for order in ASC:
            one_kind(ctx, TT, b, kind, order, ki, oi, li)


def oriented(ctx, TT, c):
    """whether the entries are sorted upwards (1) or downwards (0)"""
    n = short(c.path)
    if n in ("sort", "sort_unstable") or "key" in n:
        return 1
    k = c.ex.callables(c.st, c.fr, c.args[1])
    if len(k) != 1:
        return None
    h, cf, ops = k[0]
    fr = TT.frame(ctx.F.bodies[h], cf, None, tuple((cf, o) for o in ops), ("sort",))
    t = TT.norm(TT.local(fr, 0, ()))
    flip = 0
    while t.k == "call" and short(t.d[0]) == "reverse":
        flip, t = 1 - flip, TT.norm(t.d[1][0])
    if t.k != "call" or short(t.d[0]) not in ("cmp", "partial_cmp"):
        return None
    ps = [[x.d[1] for x in TT.walk(TT.norm(a), 0) if x.k == "par" and x.d[0] == h] for a in t.d[1][:2]]
    if ps[0] and ps[1] and set(ps[0]) != set(ps[1]):
        up = 1 if min(ps[0]) < min(ps[1]) else 0
        return up if not flip else 1 - up
    return None


def one_kind(ctx, TT, b, kind, order, ki, oi, li):
    pre = "entries:%s" % (kind or "all").lower()
    V = names(ctx, "bonsaidb_core::connection::SerializedQueryKey")
    vals = {oi: {(): sorted(ASC).index(order)}, ki: {(): 0} if kind is None else {(): 1, (("v", 1), ("f", 0)): V.index(kind) if kind in V else KEYS.index(kind)}}
    done = set()

    def item(db, t):
        t = strips(TT, t)
        if t.k == "agg":            # with its key
            return any(strips(TT, v).k == "par" and strips(TT, v).d[:2] == (db.h, 4) for _, v in t.d[2])
        return t.k == "par" and t.d[:2] == (db.h, 4) or any(x.k == "call" and short(x.d[0]) == "deserialize" for x in TT.walk(t, 0))

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        ok = [(ps.set(read=(ps.read or 0) + 1, how=n), res_ok()), (ps.set(bad=1), res_err())]
        if l == "cut":
            ctx.fail("%s:whole" % pre, w, "keys or entries are dropped by %s" % n)
            return [(ps, {})]
        if l == "scan":
            ctx.ob("%s:how" % pre, kind in (None, "Range"), w, "for %s, a range is read" % kind)
            if kind == "Range":
                ctx.ob("%s:range" % pre, covers(ctx, TT, b, c.arg(1), ki), w, "the range read is %s" % show(c.arg(1))[:80])
            else:
                t = strips(TT, c.arg(1))
                un = [strips(TT, x) for _, f in (t.d[2] if t.k == "agg" else ()) for x in alts(f)]
                ctx.ob("%s:range" % pre, t.k == "agg" and (t.d[0].endswith("RangeFull") or un and all(x.k == "agg" and x.d[1] == "Unbounded" for x in un)), w, "the range read is %s" % show(t)[:80])
            ctx.ob("%s:order" % pre, direction(ctx, TT, c, 2, order, b, oi), w, "for %s order, the scan goes the other way" % order.lower())
            if c.bb not in done and order == "Ascending":
                done.add(c.bb)
                scan(ctx, TT, b, pre, c, li, item, False)
            return ok
        if l == "get":
            ctx.ob("%s:how" % pre, kind == "Matches", w, "for %s, one key is read" % kind)
            ctx.ob("%s:key" % pre, ends_par(TT, b, c.arg(1), ki), w, "the key read is %s" % show(c.arg(1))[:80])
            return ok
        if l == "several":
            ctx.ob("%s:how" % pre, kind == "Multiple", w, "for %s, several keys are read" % kind)
            lv, calls = Prov(ctx, TT, b).of(c.arg(1))
            ctx.ob("%s:keys" % pre, "p%d" % ki in lv and not calls & PASSED - {"rev"}, w, "the keys read are %s" % show(c.arg(1))[:80])
            ctx.ob("%s:keys-sorted" % pre, ps.up is not None, w, "the keys are looked up unsorted")
            return [(ps.set(read=(ps.read or 0) + 1, how=n, up=None), res_ok()), (ps.set(bad=1), res_err())]
        if l == "sort":
            o = oriented(ctx, TT, c)
            return [(ps.set(up=o), {})]
        if l == "rev":
            return [(ps.set(up=1 - ps.up if ps.up is not None else None), {})]

    def ret(ps, val, st, ex):
        if val.get(()) == 1:
            return
        ctx.ob("%s:done" % pre, ps.read == 1 and not ps.bad, ctx.where(b), "entries are returned without having been read once")
        if kind == "Multiple":
            ctx.ob("%s:order" % pre, ps.up == ASC[order], ctx.where(b), "for %s order, the entries of several keys are returned %s" % (order.lower(), "as they were stored" if ps.up is None else "the other way"))
        t = TT.norm(ex.term(st, ("c", (0,))))
        lv, calls = Prov(ctx, TT, b).of(t)
        ctx.ob("%s:whole" % pre, not calls & PASSED - {"rev", "take", "truncate"} and not [x for x in calls if x.startswith("swallowed")], ctx.where(b), "what was read is cut by %s" % sorted(calls & set(SELECT)))
        ctx.ob("%s:decoded" % pre, "deserialize" in calls, ctx.where(b), "the entries returned are %s" % show(t)[:80])
    proto.run(ctx, TT, b, "%s:%s" % (pre, order.lower()), {"scan": [TREE + "scan"], "get": [TREE + "get"], "several": [TREE + "get_multiple"], "sort": SORTS, "rev": ["reverse", "rev"], "cut": CUTS}, step,
              c11.rec(("read", "how", "bad", "up")), ret=ret, vals=vals, kcap=16)


EACH = DB + "::for_each_in_view"


def each(ctx, TT):
    b = ctx.need(EACH)
    if b is None:
        return
    CI = DB + "::create_view_iterator"
    cbp = pidx(b, "callback") or 7

    def step(ps, l, c):
        w = c.where()
        if l == "read":
            t = TT.norm(c.arg(0))
            ctx.ob("each:tree", any(x.k == "call" and short(x.d[0]) == "tree" for x in TT.walk(t, 0)) and has_call(TT, t, "view_entries_tree_name"), w, "the entries are read from %s" % show(t)[:80])
            for i, nm in ((1, "key"), (2, "order"), (3, "limit")):
                ctx.ob("each:%s" % nm, is_par(TT, b, c.arg(i), pidx(b, nm)) if pidx(b, nm) else False, w, "the %s given is %s" % (nm, show(c.arg(i))[:60]))
            return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "next":
            t = TT.norm(c.arg(0))
            if not has_call(TT, t, "create_view_iterator"):
                return None
            ctx.ob("each:once", ps.item != 1, w, "an entry is not handed on")
            return [(ps.set(item=1), {(): 1}), (ps.set(item=0, end=1), {(): 0})]
        if l == "all":
            if not has_call(TT, TT.norm(c.arg(0)), "create_view_iterator"):
                return None
            k = c.ex.callables(c.st, c.fr, c.args[1])
            if is_par(TT, b, c.arg(1), cbp):
                pass
            elif len(k) == 1:
                h, cf, ops = k[0]
                kb = ctx.F.bodies[h]

                def kstep(ps, l, c2):
                    if not is_par(TT, b, c2.arg(0), cbp):
                        return None
                    return [(ps.set(n=(ps.n or 0) + 1), res_ok()), (ps.set(n=(ps.n or 0) + 1, bad=1), res_err())]

                def kret(ps, val, st, ex):
                    ctx.ob("each:given", ps.n == 1 and (val.get(()) == 0) == (not ps.bad), ctx.where(kb), "an entry is handed on %s times, or a failure is ignored" % (ps.n or 0))
                proto.run(ctx, TT, kb, "each:all", {"callback": ["call_mut", "call", "call_once"]}, kstep, c11.rec(("n", "bad")), need=("callback",), ret=kret,
                          frame=TT.frame(kb, cf, None, tuple((cf, o) for o in ops), ("many", c.bb), None))
            else:
                return None
            return [(ps.set(item=2, end=1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "callback":
            t = TT.norm(c.arg(0))
            if not is_par(TT, b, t, cbp):
                return None
            ctx.ob("each:given", ps.item == 1, w, "an entry is handed on twice")
            return [(ps.set(item=2), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("each:done", ps.read == 1 and ps.end == 1 and not ps.bad, ctx.where(b), "not all entries are handed on")
    proto.run(ctx, TT, b, "each", {"read": [CI], "next": [proto.ITER], "callback": ["call_mut", "call", "call_once"], "all": ["try_for_each"]}, step, c11.rec(("read", "item", "end", "bad")), need=("read",), ret=ret,
              stop=lambda x: x.path == CI)


def has_call(TT, t, n):
    return any(x.k == "call" and short(x.d[0]) == n for d in (0, 1) for x in TT.walk(TT.norm(t), d))


def callback(ctx, TT, c, i):
    k = c.ex.callables(c.st, c.fr, c.args[i])
    if len(k) != 1:
        return None
    h, cf, ops = k[0]
    cb = ctx.F.bodies[h]
    return cb, TT.frame(cb, c.fr, None, tuple((cf, o) for o in ops), ("many", c.bb), None), cf, ops


def ev(TT, cb, t, path):
    """t is the field `path` of the entry the callback was given"""
    r, p = fwd.unwrap(strips(TT, t))
    return r.k == "par" and r.d[0] == cb.h and r.d[1] == 2 and [x for x in p if x not in ("0",)] == path


def query(ctx, TT):
    b = method(ctx, "query_by_name")
    if b is None:
        return
    lim = pidx(b, "limit") or 5
    seen = set()

    def step(ps, l, c):
        w = c.where()
        if l == "cut":
            ok = short(c.path) == "truncate" and limit_of(TT, b, c.arg(1), lim)
            ctx.ob("query:cut", ok, w, "the results are cut to %s" % show(c.arg(1))[:60])
            return [(ps.set(cut=1), {})]
        ctx.ob("query:view", has_call(TT, c.arg(1), "view_by_name"), w, "the view read is %s" % show(c.arg(1))[:60])
        for i, nm in ((2, "key"), (3, "order"), (4, "limit"), (5, "access_policy")):
            ok = is_par(TT, b, c.arg(i), pidx(b, nm)) if pidx(b, nm) else False
            ctx.ob("query:%s" % nm, ok, w, "the %s given is %s" % (nm, show(c.arg(i))[:60]))
        k = callback(ctx, TT, c, 6)
        if k is None:
            ctx.fail("query:callback", w, "what is done with the entries is not known")
        elif k[0].h not in seen:
            seen.add(k[0].h)
            gather(k)
        return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]
    limited = set()

    def gather(k):
        cb, fr = k[:2]

        def count(t):
            t = strips(TT, t)
            return t.k == "call" and short(t.d[0]) == "len" or t.k == "un" and t.d[0] == "PtrMetadata"

        def branch(ps, st, o, src, val, ex):
            t = TT.norm(ex.term(st, o))
            if t.k == "disc" and limit_of(TT, b, t.d[0], lim):
                return ps.set(lim=val)
            f = exhausted(ctx, TT, b, t, lim, count)
            if f == "bad":
                ctx.fail("query:limit", ctx.where(cb), "the limit is compared by %s" % show(t)[:60])
            elif f is not None and val in (0, 1):
                return ps.set(full=1 if f(val) else 0)
            return ps

        def bstep(ps, l, c2):
            if l == "cut":
                ok = short(c2.path) == "truncate" and limit_of(TT, b, c2.arg(1), lim)
                ctx.ob("query:cut", ok, c2.where(), "mappings are dropped by %s" % short(c2.path))
                return [(ps, {})]
            if l == "next":
                t = TT.norm(c2.arg(0))
                ctx.ob("query:mappings", ev(TT, cb, t, ["mappings"]), c2.where(), "what is gone through is %s" % show(t)[:60])
                return [(ps.set(item=1, full=None, n=0), {(): 1}), (ps.set(item=0), {(): 0})] if ps.item != 1 or ps.n == 1 else miss(ps, c2)
            if l == "push":
                t = TT.norm(c2.arg(1))
                if t.k != "agg":
                    return None
                f = dict(t.d[2])
                w = c2.where()
                ctx.ob("query:once", ps.item == 1 and not ps.n, w, "a mapping is returned twice")
                ctx.ob("query:mapping", ev(TT, cb, f.get("source"), ["mappings", "*", "source"]) and ev(TT, cb, f.get("key"), ["key"]) and ev(TT, cb, f.get("value"), ["mappings", "*", "value"]), w, "what is returned is %s" % show(t)[:120])
                limited.add(ps.full == 0 or ps.lim == 0)
                ctx.ob("query:limit-order", ps.full != 1, w, "a mapping is returned although the limit is reached")
                return [(ps.set(n=1), {})]

        def miss(ps, c2):
            ctx.ob("query:each", ps.full == 1, c2.where(), "a mapping is left out")
            return [(ps.set(item=1, full=None, n=0), {(): 1}), (ps.set(item=0), {(): 0})]

        def bret(ps, val, st, ex):
            ctx.ob("query:all", ps.item == 0 or ps.full == 1, ctx.where(cb), "mappings are left out")
            ctx.ob("query:ok", val.get(()) == 0, ctx.where(cb), "handing on an entry fails")
        for v, vals in limits(TT, b, k, lim):
            proto.run(ctx, TT, cb, "query:gather", {"next": [proto.ITER], "push": ["push"], "cut": CUTS}, bstep, c11.rec(("lim", "full", "item", "n"), lim=v), need=("next", "push"), frame=fr, branch=branch, ret=bret, vals=vals)

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("query:done", ps.read == 1 and not ps.bad, ctx.where(b), "a query succeeds without having read the entries once")
            ctx.ob("query:limited", limited == {True} or ps.cut == 1 or ps.lim == 0 or cutby(ex, st), ctx.where(b), "more mappings than the limit can be returned")
            t = TT.norm(ex.term(st, ("c", (0,))))
            bad = sorted({short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call"} & (set(SELECT) - {"take"}))
            ctx.ob("query:whole", not bad, ctx.where(b), "what was read is cut by %s" % bad)

    def qbranch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if t.k == "disc" and limit_of(TT, b, t.d[0], lim):
            return ps.set(lim=val)
        return ps

    def cutby(ex, st):
        t = TT.norm(ex.term(st, ("c", (0,))))
        return any(x.k == "call" and short(x.d[0]) == "take" and any(limit_of(TT, b, a, lim) for a in x.d[1]) for x in TT.walk(t, 0))
    proto.run(ctx, TT, b, "query", {"each": [EACH], "cut": CUTS}, step, c11.rec(("read", "cut", "bad", "lim")), branch=qbranch, need=("each",), ret=ret, stop=lambda x: x.path == EACH)


def chosen(TT, t, calls):
    """some elements of what t is made from are left out"""
    return calls & PASSED or [x for x in TT.walk(TT.norm(t), 3) if x.k == "call" and "Iterator::" in x.d[0] and short(x.d[0]) in SELECT]


def with_docs(ctx, TT):
    b = method(ctx, "query_by_name_with_docs")
    if b is None:
        return
    Q, G = LL + "::query_by_name", LL + "::get_multiple_from_collection"

    def step(ps, l, c):
        w = c.where()
        if l == "query":
            for i, nm in ((1, "view"), (2, "key"), (3, "order"), (4, "limit"), (5, "access_policy")):
                ctx.ob("docs:%s" % nm, is_par(TT, b, c.arg(i), pidx(b, nm)) if pidx(b, nm) else False, w, "the %s given is %s" % (nm, show(c.arg(i))[:60]))
            return [(ps.set(q=1), res_ok()), (ps.set(bad=1), res_err())]
        lv, calls = Prov(ctx, TT, b).of(c.arg(1))
        ctx.ob("docs:ids", {".source", ".id"} <= lv and "query_by_name" in calls and not chosen(TT, c.arg(1), calls), w, "the documents looked up are %s" % show(c.arg(1))[:80])
        ctx.ob("docs:collection", has_call(TT, c.arg(2), "collection") and has_call(TT, c.arg(2), "view_by_name"), w, "the documents are looked up in %s" % show(c.arg(2))[:80])
        return [(ps.set(g=1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("docs:done", ps.q == 1 and ps.g == 1 and not ps.bad, ctx.where(b), "results are returned without the query or its documents")
            t = TT.norm(ex.term(st, ("c", (0,))))
            a = [dict(x.d[2]) for x in TT.walk(t, 0) if x.k == "agg" and "mappings" in dict(x.d[2])]
            if len(a) == 1:
                m = strips(TT, a[0]["mappings"])
                ctx.ob("docs:mappings", m.k == "call" and short(m.d[0]) == "query_by_name", ctx.where(b), "the mappings returned are %s" % show(m)[:60])
                lv, calls = Prov(ctx, TT, b).of(a[0]["documents"])
                ctx.ob("docs:documents", "get_multiple_from_collection" in calls and not calls & PASSED, ctx.where(b), "the documents returned are %s" % show(TT.norm(a[0]["documents"]))[:60])
            else:
                ctx.fail("docs:returned", ctx.where(b), "what is returned is %s" % show(t)[:80])
    proto.run(ctx, TT, b, "docs", {"query": ["query_by_name"], "get": ["get_multiple_from_collection"]}, step, c11.rec(("q", "g", "bad")), need=("query", "get"), ret=ret,
              stop=lambda x: short(x.path) in ("query_by_name", "get_multiple_from_collection"))


def reducing(ctx, TT):
    b = method(ctx, "reduce_grouped_by_name")
    if b is not None:
        seen = set()

        def step(ps, l, c):
            w = c.where()
            ctx.ob("grouped:key", is_par(TT, b, c.arg(2), pidx(b, "key") or 3), w, "the key given is %s" % show(c.arg(2))[:60])
            t = strips(TT, c.arg(4))
            ctx.ob("grouped:limit", t.k == "agg" and t.d[1] == "None", w, "the limit given is %s" % show(t)[:60])
            ctx.ob("grouped:policy", is_par(TT, b, c.arg(5), pidx(b, "access_policy") or 4), w, "the access policy given is %s" % show(c.arg(5))[:60])
            k = callback(ctx, TT, c, 6)
            if k is None:
                ctx.fail("grouped:callback", w, "what is done with the entries is not known")
            elif k[0].h not in seen:
                seen.add(k[0].h)
                cb, fr = k[:2]

                def bstep(ps, l, c2):
                    t = TT.norm(c2.arg(1))
                    f = dict(t.d[2]) if t.k == "agg" else {}
                    ctx.ob("grouped:entry", ev(TT, cb, f["key"], ["key"]) and ev(TT, cb, f["value"], ["reduced_value"]) if {"key", "value"} <= set(f) else False, c2.where(), "what is returned is %s" % show(t)[:80])
                    return [(ps.set(n=(ps.n or 0) + 1), {})]

                def bret(ps, val, st, ex):
                    ctx.ob("grouped:once", ps.n == 1 and val.get(()) == 0, ctx.where(cb), "an entry is returned %s times" % (ps.n or 0))
                proto.run(ctx, TT, cb, "grouped:gather", {"push": ["push"]}, bstep, c11.rec(("n",)), need=("push",), frame=fr, ret=bret)
            return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("grouped:done", ps.read == 1 and not ps.bad, ctx.where(b), "a reduction succeeds without having read the entries once")
                whole(ctx, TT, b, "grouped", st, ex)
        proto.run(ctx, TT, b, "grouped", {"each": [EACH]}, step, c11.rec(("read", "bad")), need=("each",), ret=ret, stop=lambda x: x.path == EACH)

    r = method(ctx, "reduce_by_name")
    if r is None:
        return

    def rstep(ps, l, c):
        w = c.where()
        if l == "grouped":
            for i, nm in ((1, "view_name"), (2, "key"), (3, "access_policy")):
                ctx.ob("reduce:%s" % nm, is_par(TT, r, c.arg(i), pidx(r, nm) or i + 1), w, "the %s given is %s" % (nm, show(c.arg(i))[:60]))
            return [(ps.set(g=1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "reduce":
            lv, calls = Prov(ctx, TT, r).of(c.arg(1))
            ctx.ob("reduce:all", "reduce_grouped_by_name" in calls and not calls & PASSED and {".key", ".value"} <= lv, w, "what is reduced is %s" % show(c.arg(1))[:80])
            t = TT.norm(c.arg(2))
            ctx.ob("reduce:rereduce", t.k == "con" and str(t.d[0]) in ("true", "1"), w, "reduced values are reduced as if they were mapped ones")
            ctx.ob("reduce:view", has_call(TT, c.arg(0), "view_by_name"), w, "the view reducing is %s" % show(c.arg(0))[:60])
            return [(ps.set(r=1), res_ok()), (ps.set(bad=1), res_err())]

    def rbranch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if t.k == "bin" and t.d[0] in ("Eq", "Ne"):
            x = [TT.norm(z) for z in t.d[1]]
            if any(z.k == "con" and str(z.d[0]) == "1" for z in x) and any(z.k == "call" and short(z.d[0]) == "len" for z in x):
                return ps.set(one=val if t.d[0] == "Eq" else 1 - val)
        return ps

    def rret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("reduce:done", ps.g == 1 and not ps.bad and (ps.r == 1 or ps.one == 1), ctx.where(r), "what is returned for %s was not reduced" % ("one entry" if ps.one else "any number of entries"))
    proto.run(ctx, TT, r, "reduce", {"grouped": ["reduce_grouped_by_name"], "reduce": ["bonsaidb_core::schema::view::Serialized::reduce"]}, rstep, c11.rec(("g", "r", "one", "bad")), need=("grouped", "reduce"), branch=rbranch, ret=rret,
              stop=lambda x: short(x.path) == "reduce_grouped_by_name")


def deleting(ctx, TT):
    b = method(ctx, "delete_docs_by_name")
    if b is None:
        return
    seen = set()

    def gather(k):
        cb, fr = k[:2]

        def bstep(ps, l, c2):
            w = c2.where()
            if l == "next":
                t = TT.norm(c2.arg(0))
                ctx.ob("delete:mappings", ev(TT, cb, t, ["mappings"]), w, "what is gone through is %s" % show(t)[:60])
                ctx.ob("delete:each", ps.item != 1 or ps.n == 1 or ps.new == 0, w, "a document is left out")
                return [(ps.set(item=1, n=0, new=None), {(): 1}), (ps.set(item=0), {(): 0})]
            if l in ("insert", "contains"):
                if not ev(TT, cb, c2.arg(1), ["mappings", "*", "source", "id"]):
                    return None
                a, z = (1, 0) if l == "insert" else (0, 1)
                ins = {"ins": 1} if l == "insert" else {}
                return [(ps.set(new=1, **ins), {(): a}), (ps.set(new=0, **ins), {(): z})] if l == "contains" or ps.new is None else [(ps.set(**ins), {(): ps.new})]
            t = TT.norm(c2.arg(1))
            op = [x for x in TT.walk(t, 1) if x.k == "call" and short(x.d[0]) == "delete" or x.k == "agg" and x.d[1] == "Delete"]
            if not op:
                ctx.fail("delete:operation", w, "what is done is %s" % show(t)[:60])
                return None
            s = [x for x in TT.walk(t, 1) if x.k == "fld" and x.d[1] == "source"]
            ctx.ob("delete:which", bool(s) and ev(TT, cb, s[0], ["mappings", "*", "source"]), w, "what is deleted is %s" % show(t)[:80])
            ctx.ob("delete:collection", has_call(TT, t, "collection"), w, "documents are deleted from %s" % show(t)[:80])
            ctx.ob("delete:once", ps.new == 1 and not ps.n, w, "a document can be deleted twice")
            return [(ps.set(n=1), {})]

        def bret(ps, val, st, ex):
            ctx.ob("delete:all", ps.item == 0 and val.get(()) == 0, ctx.where(cb), "documents are left out")
        proto.run(ctx, TT, cb, "delete:gather", {"next": [proto.ITER], "insert": ["insert"], "contains": ["contains", "contains_key"], "push": ["bonsaidb_core::transaction::Transaction::push"]}, bstep, c11.rec(("item", "n", "new", "ins")), need=("next", "push"), frame=fr, ret=bret)

    def step(ps, l, c):
        w = c.where()
        if l == "each":
            ctx.ob("delete:key", is_par(TT, b, c.arg(2), pidx(b, "key") or 3), w, "the key given is %s" % show(c.arg(2))[:60])
            t = strips(TT, c.arg(4))
            ctx.ob("delete:limit", t.k == "agg" and t.d[1] == "None", w, "the limit given is %s" % show(t)[:60])
            k = callback(ctx, TT, c, 6)
            if k is None:
                ctx.fail("delete:callback", w, "what is done with the entries is not known")
            elif k[0].h not in seen:
                seen.add(k[0].h)
                gather(k)
            return [(ps.set(read=(ps.read or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]
        ctx.ob("delete:applied-last", ps.read == 1, w, "the deletions are applied before they are known")
        return [(ps.set(n=(ps.n or 0) + 1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("delete:done", ps.read == 1 and ps.n == 1 and not ps.bad, ctx.where(b), "documents are reported as deleted although they were not")
            t = strips(TT, ex.term(st, ("c", (0,))))
            ctx.ob("delete:number", has_call(TT, t, "apply_transaction") and has_call(TT, t, "len"), ctx.where(b), "the number returned is %s" % show(t)[:60])
    proto.run(ctx, TT, b, "delete", {"each": [EACH], "apply": ["apply_transaction"]}, step, c11.rec(("read", "n", "bad")), need=("each", "apply"), ret=ret, stop=lambda x: x.path == EACH or short(x.path) == "apply_transaction")
