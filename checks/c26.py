"""C26: a stored file gives back the bytes appended to it."""
from terms import T, alts, short, show
from explore import res_ok, res_err
import c11
import c30
import fwd
import proto
from c30 import CUTS, FLIP, is_par, pidx
from prov import LOSSY, SELECT, Prov

EXPLAIN = ("Appending, listing a file's blocks, loading, reading, seeking, truncating and deleting, in their blocking and asynchronous forms, are explored over compiler MIR on every path, with each step "
           "succeeding, failing or (asynchronously) not being ready yet. Offsets and lengths are compared as linear expressions of provenance terms, positions in a file and what was loaded as an automaton over the assignments made.")
RULE = ("Appending applies one transaction that first checks that the file exists and then inserts each chunk of the data, in order and once, followed by the file's id and the time; nothing is success without it. "
        "What is taken off a block is what was put behind the data; its length is the rest. The blocks of a file are its own, ordered by id, each at the sum of the lengths before it. "
        "Blocks are requested in order from the current one on, placed at the positions they were requested for, and only if none is missing; the position moves by exactly what was handed out. "
        "Nothing that was read is lost by waiting. Truncating removes whole blocks from the end named only while they fit, and deletes them in one transaction. A file's document is deleted before its blocks.")
ASSUME = ["C07, C13, C27, C30 (transactions, views and typed handles of the database).", "Ids of blocks ascend in the order in which they were inserted (nebari's sequence).",
          "The standard library's and tokio's adapters (read_to_end, read_exact) use read and poll_read as documented."]
FI = "bonsaidb_files::"
BL = FI + "schema::block::Block::<Config>::"
SF = FI + "schema::file::File::<Config>::"
CT = FI + "direct::Contents::<"
BK = FI + "direct::Blocking<Database>"
AS = FI + "direct::Async<Database>"
ITER = ("next",)
CORE = ("query", "with_key", "get_multiple", "reduce", "delete_docs", "push_into", "push_into_async", "update", "update_async", "delete", "delete_async", "apply", "apply_async")
INTO = ("try_from", "from", "unwrap", "expect", "into", "try_into", "clone", "unsigned_abs")


def check(ctx):
    TT = ctx.terms(opaque=LOSSY | {p for p in ctx.F.by_path if p.startswith("bonsaidb_core::") and short(p) in CORE} | {SF + "truncate", SF + "truncate_async"} | {BL + n + a for n in ("load", "append", "delete_for_file", "for_file") for a in ("", "_async")} |
                   {CT + "Database, Config>::" + n for n in ("next_blocks", "non_blocking_read", "non_blocking_read_block")} | {SF + "create_truncate_transaction", "bonsaidb_core::transaction::Operation::check_document_exists", "bonsaidb_core::transaction::Operation::insert",
                    "bonsaidb_core::transaction::Operation::delete"})
    TT.state = frozenset(("current_block", "offset"))
    ctx.NR = {v: i for i, v in enumerate(variants(ctx, FI + "direct::NonBlockingReadResult", ["NeedBlocks", "ReadBytes", "Eof"]))}
    ctx.NB = {v: i for i, v in enumerate(variants(ctx, FI + "direct::NonBlockingBlockReadResult", ["NeedBlocks", "ReadBlock", "Eof"]))}
    loading(ctx, TT, "load_blocks", BK)
    loading(ctx, TT, "fetch_blocks", AS)
    fetcher(ctx, TT)
    requested(ctx, TT)
    bytewise(ctx, TT)
    blockwise(ctx, TT)
    seek(ctx, TT)
    for selfty, trait, name, source in ((BK, "alloc::io::read::Read", "read", "load_blocks"), (AS, "tokio::io::async_read::AsyncRead", "poll_read", "fetch_blocks"),
                                      (BK, "core::iter::traits::iterator::Iterator", "next", "load_blocks"), (AS, "futures_core::stream::Stream", "poll_next", "fetch_blocks")):
        pump(ctx, TT, selfty, trait, name, source)
    truncating(ctx, TT)
    for a in ("", "_async"):
        removing(ctx, TT, a)
        writing(ctx, TT, a)
        resizing(ctx, TT, a)
        append(ctx, TT, a)
        load(ctx, TT, a)
        for_file(ctx, TT, a)
        handle(ctx, TT, a)
    layout(ctx, TT)


# ---- helpers -------------------------------------------------------------------------------------------
def root_of(ctx, TT, path):
    """(function, body to explore, its frame); an asynchronous function's body is the future it makes"""
    b = ctx.need(path)
    if b is None:
        return None, None, None
    for blk in b.blocks:
        for pl, rv, _ in (blk[0] if blk else ()):
            if rv and rv[0] == "agg" and rv[1] == "coroutine":
                x = next((x for x in ctx.F.children.get(b.h, ()) if x.kind == "coroutine"), None)
                if x is not None:
                    fr = TT.frame(b)
                    return b, x, TT.frame(x, fr, None, tuple((fr, o) for o in rv[6]), ("poll",))
    return b, b, None


def strip(TT, t, more=()):
    """t without conversions and whole slices"""
    t = TT.norm(t)
    while t.k == "call" and t.d[1]:
        n = short(t.d[0])
        if n == "index" and not (len(t.d[1]) == 2 and "RangeFull" in show(t.d[1][1])) or n not in fwd.CONV and n not in more:
            break
        t = TT.norm(t.d[1][0])
    return t


def strips(TT, t):
    return strip(TT, t, ("index", "as_slice", "as_ref", "borrow", "borrow_as_bytes", "deref", "try_from", "into", "unwrap"))


def plain(TT, t):
    t = strips(TT, t)
    while t.k == "call" and short(t.d[0]) in INTO and t.d[1]:
        t = strips(TT, t.d[1][0])
    return t


def lin(TT, t):
    """t as {term: coefficient}; the constant under None"""
    t = plain(TT, t)
    if t.k == "con":
        try:
            n = int(str(t.d[0]))
            return {None: n} if n else {}
        except ValueError:
            return {t: 1}
    op = None
    if t.k == "bin" and t.d[0][:3] in ("Add", "Sub"):
        op, x, y = t.d[0][:3], t.d[1][0], t.d[1][1]
    elif t.k == "call" and short(t.d[0]) in ("saturating_add", "checked_add", "wrapping_add", "saturating_sub", "checked_sub", "wrapping_sub", "add", "sub") and len(t.d[1]) == 2:
        op, x, y = ("Add" if "add" in short(t.d[0]) else "Sub"), t.d[1][0], t.d[1][1]
    if op is None:
        if t.k == "call" and short(t.d[0]) == "len" and t.d[1]:
            t = T("call", ("len", (strips(TT, t.d[1][0]),)))
        return {t: 1}
    r = dict(lin(TT, x))
    for k, v in lin(TT, y).items():
        r[k] = r.get(k, 0) + (v if op == "Add" else -v)
    return {k: v for k, v in r.items() if v}


def field(t, *names):
    r, p = fwd.unwrap(t)
    p = [x for x in p if x not in ("*", "0")]
    return r, p, tuple(p[-len(names):]) == names


def self_field(TT, b, t, name):
    """t is that field of the object itself"""
    r, p = fwd.unwrap(plain(TT, t))
    p = [x for x in p if x not in ("*", "0", "pointer", "__pointer")]
    return r.k == "par" and r.d[:2] == (b.h, 1) and p == [name]


def const(TT, t, n):
    t = plain(TT, t)
    return t.k == "con" and str(t.d[0]) == str(n)


def has(TT, t, name, depth=0):
    return any(x.k == "call" and short(x.d[0]) == name for x in TT.walk(TT.norm(t), depth))


# ---- appending -----------------------------------------------------------------------------------------
def append(ctx, TT, a):
    b, root, fr = root_of(ctx, TT, BL + "append" + a)
    if b is None:
        return
    di, fi = pidx(b, "data") or 1, pidx(b, "file_id") or 2
    pre = "append" + a

    def chunk(t):
        t = strips(TT, t)
        return t.k == "elem" and (lambda c: c.k == "call" and short(c.d[0]) == "chunks" and is_par(TT, b, c.d[1][0], di))(strips(TT, t.d[0]))

    def part(t):
        t = TT.norm(t)
        s = strips(TT, t)
        if chunk(t):
            return "data"
        if s.k == "call" and short(s.d[0]) == "to_be_bytes":
            return "id" if is_par(TT, b, s.d[1][0], fi) else "time" if has(TT, s, "now") else "?"
        return "?"

    def parts(t):
        """the parts of contents made by concatenating"""
        t = strips(TT, t)
        if t.k == "call" and short(t.d[0]) in ("concat", "collect") and t.d[1]:
            x = strips(TT, t.d[1][0])
            if x.k == "agg":
                return tuple(q for _, v in x.d[2] for q in (parts(v) or (part(v),)))
        return None

    def step(ps, l, c):
        w = c.where()
        if l == "next":
            if not (c.arg(0).k == "call" or True) or not any(x.k == "call" and short(x.d[0]) == "chunks" for x in TT.walk(c.arg(0), 0)):
                return None
            ctx.ob(pre + ":each", ps.it != "some" or ps.ins == 1, w, "a chunk of the data is inserted %d times" % (ps.ins or 0))
            return [(ps.set(it="some", ins=0, parts=()), {(): 1}), (ps.set(it="end", ins=0), {(): 0})]
        if l == "extend":
            p = parts(c.arg(1)) or (part(c.arg(1)),)
            return [(ps.set(parts=((ps.parts or ()) + p)[:5]), {})] if p != ("?",) or ps.parts else None
        if l == "chunks":
            ctx.ob(pre + ":whole", is_par(TT, b, c.arg(0), di) and "BLOCK_SIZE" in show(TT.norm(c.arg(1))), w, "what is split into blocks is %s by %s" % (show(c.arg(0))[:60], show(c.arg(1))[:60]))
            return [(ps, {})]
        if l == "check":
            return [(ps, res_ok()), (ps.set(bad=1), res_err())]
        if l == "push":
            t = strips(TT, c.arg(1))
            if any(x.k == "call" and short(x.d[0]) == "check_document_exists" for x in TT.walk(t, 0)):
                x = next(x for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) == "check_document_exists")
                ctx.ob(pre + ":exists", is_par(TT, b, x.d[1][0], fi) and not ps.n, w, "what is checked to exist is %s" % show(x)[:60])
                ty = x.x[0].args[0].s if x.x and x.x[0].args else ""
                ctx.ob(pre + ":exists", "file::File<" in ty or not ty, w, "what is checked to exist is a %s" % ty)
                return [(ps.set(exists=1), {})]
            if t.k == "call" and short(t.d[0]) == "insert" and len(t.d[1]) >= 3:
                at = t.d[1]
                idt = strips(TT, at[1])
                ctx.ob(pre + ":own-collection", any("name" in short(x.d[0]) for x in TT.walk(TT.norm(at[0]), 0) if x.k == "call"), w, "the collection is %s" % show(at[0])[:60])
                ctx.ob(pre + ":new-id", idt.k == "agg" and idt.d[1] == "None", w, "the id of a block is %s" % show(idt)[:60])
                p = parts(at[2]) or ps.parts
                ctx.ob(pre + ":block", p == ("data", "id", "time"), w, "a block consists of %s" % (p,))
                ctx.ob(pre + ":exists", ps.exists == 1, w, "a block is inserted before the file is checked to exist")
                return [(ps.set(n=1, ins=min(2, (ps.ins or 0) + 1)), {})]
            ctx.fail(pre + ":block", w, "something else is part of the transaction: %s" % show(t)[:60])
            return [(ps, {})]
        if l == "cut":
            ctx.fail(pre + ":whole", w, "data is dropped by %s" % short(c.path))
            return [(ps, {})]
        ctx.ob(pre + ":applied", ps.exists == 1 and not ps.applied and ps.it in (None, "end"), w, "the transaction is applied without having checked the file, before all data is in it, or twice")
        return [(ps.set(applied=1), res_ok()), (ps.set(applied=1, bad=1), res_err())]

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        neg = False
        while t.k == "un" and t.d[0] == "Not":
            t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
        if t.k == "call" and short(t.d[0]) == "is_empty" and is_par(TT, b, t.d[1][0], di) and val in (0, 1):
            return ps.set(empty=val ^ neg)
        if t.k == "bin" and t.d[0] in FLIP:
            d = lin(TT, T("bin", ("Sub", t.d[1])))
            if len(d) == 1 and list(d)[0] is not None and list(d)[0].k == "call" and short(list(d)[0].d[0]) == "len" and is_par(TT, b, list(d)[0].d[1][0], di):
                z = {"Eq": val, "Ne": 1 - val if val in (0, 1) else None, "Gt": 1 - val if val in (0, 1) else None}.get(t.d[0])
                return ps.set(empty=z ^ neg if z is not None else None)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", not ps.bad and (ps.applied == 1 or ps.empty == 1), ctx.where(b), "appending succeeds although nothing was stored")
    proto.run(ctx, TT, root, pre, {"next": ITER, "extend": ["extend", "extend_from_slice"], "chunks": ["chunks"], "check": ["bonsaidb_core::transaction::Operation::check_document_exists"], "push": ["bonsaidb_core::transaction::Transaction::push"],
                                   "apply": ["apply", "apply_async", "apply_transaction"], "cut": CUTS + ["skip", "take", "step_by", "filter", "rev", "chunks_exact", "rchunks", "rchunks_exact"]},
              step, c11.rec(("it", "ins", "parts", "exists", "n", "applied", "bad", "empty")), need=("chunks", "push", "apply"), frame=fr, branch=branch, ret=ret)


# ---- the layout of a block -----------------------------------------------------------------------------
def off(TT, t, base):
    """t as len(base) + n, or n: (coefficient, n), or None"""
    d = lin(TT, t)
    n = d.pop(None, 0)
    if not d:
        return (0, n)
    if len(d) == 1:
        k, v = list(d.items())[0]
        if k.k == "call" and short(k.d[0]) == "len" and strips(TT, k.d[1][0]) == base:
            return (v, n)
    return None


def sliced(TT, t):
    """(base, from, to) of a slice"""
    t = strip(TT, t)
    while t.k == "call" and short(t.d[0]) in ("try_into", "try_from", "unwrap", "expect", "as_ref", "deref", "to_vec") and t.d[1]:
        t = strip(TT, t.d[1][0])
    if t.k == "call" and short(t.d[0]) in ("index", "get", "index_mut") and len(t.d[1]) == 2:
        base, r = strips(TT, t.d[1][0]), strip(TT, t.d[1][1])
        if r.k == "agg":
            f = dict(r.d[2])
            return base, (off(TT, f["start"], base) if "start" in f else (0, 0)), (off(TT, f["end"], base) if "end" in f else (1, 0))
    return None


def layout(ctx, TT):
    b = ctx.method(FI + "schema::block::ByFile<Config>", "bonsaidb_core::schema::view::MapReduce", "map")
    if b is not None:
        seen = {}

        def step(ps, l, c):
            w = c.where()
            if l == "bytes":
                ty = "id" if "u32" in c.path else "time" if "i64" in c.path or "u64" in c.path else None
                s = sliced(TT, c.arg(0))
                if s is not None and ty:
                    seen[ty] = (s, w)
                elif ty:
                    seen.setdefault(ty, None)
                return [(ps, {})]
            if l == "copy":
                s = sliced(TT, c.arg(1))
                if s is not None and None not in s[1:]:
                    seen[("copy", s[1:])] = w
                return [(ps, {})]
            k, v = TT.norm(c.arg(1)), strips(TT, c.arg(2))
            ctx.ob("layout:key", any(x.k == "call" and x.d[0].endswith("u32>::from_be_bytes") for x in TT.walk(k, 0)) or "from_be_bytes" not in show(k), w, "the key of a block is %s" % show(k)[:60])
            f = dict(v.d[2]) if v.k == "agg" else {}
            if "length" in f:
                d = lin(TT, f["length"])
                n = d.pop(None, 0)
                ctx.ob("layout:length", n == -12 and len(d) == 1 and all(x.k == "call" and short(x.d[0]) == "len" and y == 1 for x, y in d.items()), w, "the length of a block's data is %s" % show(f["length"])[:80])
                ctx.ob("layout:time", any("from_be_bytes" in x.d[0] and "i64" in x.d[0] for x in TT.walk(f.get("timestamp", f["length"]), 0) if x.k == "call"), w, "the time of a block is %s" % show(f.get("timestamp"))[:60])
            else:
                ctx.fail("layout:length", w, "the value of a block is %s" % show(v)[:60])
            return [(ps.set(n=(ps.n or 0) + 1), res_ok())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("layout:emits", ps.n == 1, ctx.where(b), "a block is emitted %d times" % (ps.n or 0))
        proto.run(ctx, TT, b, "layout", {"bytes": ["from_be_bytes"], "copy": ["copy_from_slice"], "emit": ["emit_key_and_value"]}, step, c11.rec(("n",)), need=("emit",), ret=ret)
        copies = {k[1]: w for k, w in seen.items() if isinstance(k, tuple)}
        for r, w in copies.items():
            ctx.ob("layout:parts", r in (((1, -12), (1, -8)), ((1, -8), (1, 0))), w, "what is read from a block is [len%+d..len%+d]" % (r[0][1], r[1][1]))
        for ty, lo, hi in (("id", -12, -8), ("time", -8, 0)):
            if seen.get(ty):
                s, w = seen[ty]
                ctx.ob("layout:" + ty, s[1:] == ((1, lo), (1, hi)), w, "the %s of a block is read from %s" % (ty, s[1:]))
    b = ctx.method(FI + "schema::block::ByFile<Config>", "bonsaidb_core::schema::view::MapReduce", "reduce")
    if b is None:
        return
    TL = TT
    t = TL.norm(TL.local(TL.frame(b), 0, ()))
    n = 0
    for x in TL.walk(t, 0):
        if x.k == "agg" and x.d[0].endswith("BlockAppendInfo"):
            n += 1
            f = dict(x.d[2])
            for name, by, no in (("length", ("sum", "fold", "reduce"), SELECT), ("timestamp", ("max", "max_by", "max_by_key", "fold", "reduce"), set(SELECT) - {"max", "filter_map", "flatten", "reduce", "flat_map", "max_by", "max_by_key", "last"} | {"min", "first"})):
                lv, calls = Prov(ctx, TL, b).of(f[name])
                ctx.ob("reduce:" + name, bool(calls & set(by)) and not (calls & (set(no) - set(by))) and "." + name in lv, ctx.where(b), "the %s of several blocks is %s, of %s" % (name, sorted(calls), sorted(lv)))
    ctx.floor("reduce:values", n, 1)


def load(ctx, TT, a):
    b, root, fr = root_of(ctx, TT, BL + "load" + a)
    if b is None:
        return
    pre = "load" + a
    ids = pidx(b, "block_ids") or 1

    def step(ps, l, c):
        w = c.where()
        if l == "get":
            ctx.ob(pre + ":ids", is_par(TT, b, c.arg(1), ids), w, "the blocks loaded are %s" % show(c.arg(1))[:60])
            return [(ps.set(got=1), res_ok()), (ps.set(bad=1), res_err())]
        t = TT.norm(c.arg(0))
        if not has(TT, t, "get_multiple"):
            return None
        if l in ("truncate", "split_off"):
            o = off(TT, c.arg(1), strips(TT, t))
            ctx.ob(pre + ":data", l == "truncate" and o == (1, -12), w, "the data of a block is cut at %s" % show(c.arg(1))[:80])
            return [(ps.set(cut=1), {})]
        if l == "drain":
            return [(ps.set(cut=1), {})]
        ctx.fail(pre + ":all", w, "blocks or data are dropped by %s" % short(c.path))
        return [(ps, {})]
    proto.run(ctx, TT, root, pre, {"get": ["get_multiple", "get_multiple_async"], "truncate": [CUTS[0]], "split_off": ["alloc::vec::Vec::<T, A>::split_off"], "drain": ["drain"],
                                   "cut": [x for x in CUTS if not x.endswith(("truncate", "split_off"))] + ["skip", "take", "step_by", "filter", "skip_while", "take_while"]}, step, c11.rec(("got", "bad", "cut")), need=("get", "truncate"), frame=fr,
              ret=lambda ps, val, st, ex: ctx.ob(pre + ":errors", not ps.bad or val.get(()) != 0, ctx.where(b), "loading succeeds although it failed"))
    t = TT.local(TT.frame(b) if fr is None else fr, 0, ())
    lv, calls = Prov(ctx, TT, b).of(t)
    sw = [x for x in calls if x.startswith("swallowed")]
    ctx.ob(pre + ":all", not (calls & set(SELECT)) and not sw, ctx.where(b), "only part of what was loaded is returned: %s" % sorted((calls & set(SELECT)) | set(sw)))
    ctx.ob(pre + ":by-id", ".id" in lv, ctx.where(b), "blocks are not returned by their ids: %s" % sorted(lv))


def for_file(ctx, TT, a):
    b, root, fr = root_of(ctx, TT, BL + "for_file" + a)
    if b is None:
        return
    pre = "blocks" + a
    fi = pidx(b, "file_id") or 1
    infos = set()

    def length(t):
        t = plain(TT, t)
        return t.k == "fld" and t.d[1] == "length"

    def assign(ps, st, place, rv, line, ex):
        w = "%s:%d (%s)" % (st.fr.body.file, line, st.fr.body.path)
        if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("direct::BlockInfo"):
            f = {n: TT.norm(ex.term(st, o)) for n, o in zip(rv[5], rv[6])}
            infos.add(line)
            for n, want in (("header", ("source",)), ("length", ("value", "length")), ("timestamp", ("value", "timestamp"))):
                ctx.ob("%s:%s" % (pre, n), field(plain(TT, f[n]), *want)[2] and has(TT, f[n], "query"), w, "the %s of a block is %s" % (n, show(f[n])[:60]))
            return ps
        if len(place) > 1 and place[-1][0] == "f" and place[-1][-1] == "offset":
            ctx.ob(pre + ":offset", ps.at in (None, "added") and ps.sorted == 1, w, "a block's position is set before the blocks are ordered, or the length before it was added")
            t = TT.norm(ex.term(st, rv[1])) if rv[0] == "use" else None
            if t is not None:
                z = [plain(TT, x) for x in alts(t)]
                good = any(const(TT, x, 0) for x in z) and all(x.k in ("rec", "unk") or const(TT, x, 0) or x.k == "bin" and x.d[0][:3] == "Add" and any(length(y) for y in x.d[1]) for x in z)
                ctx.ob(pre + ":offset", good, w, "a block's position is %s" % show(t)[:80])
            return ps.set(at="set")
        if rv[0] == "bin" and rv[1][:3] in ("Add", "Sub"):
            ops = [x for x in rv[2:] if isinstance(x, tuple)]
            ops = ops[0] if len(ops) == 1 and ops[0] and isinstance(ops[0][0], tuple) else ops
            if any(length(ex.term(st, o)) for o in ops):
                ctx.ob(pre + ":offset", rv[1][:3] == "Add" and ps.at == "set", w, "a block's position contains its own length, or lengths are not added")
                return ps.set(at="added")
        return ps

    def step(ps, l, c):
        w = c.where()
        if l == "key":
            ctx.ob(pre + ":own", is_par(TT, b, c.arg(1), fi), w, "the blocks are those of %s" % show(c.arg(1))[:60])
            return [(ps.set(key=1), {})]
        if l == "query":
            ctx.ob(pre + ":own", ps.key == 1 and not ps.q, w, "the blocks are not those of the file")
            return [(ps.set(q=1), res_ok()), (ps.set(q=1, bad=1), res_err())]
        if l == "next":
            if not has(TT, c.arg(0), "query"):
                return None
            ctx.ob(pre + ":offset", ps.at != "set", w, "a block's length is not added to the position of the next")
            return [(ps, {(): 1}), (ps.set(end=1), {(): 0})]
        if not has(TT, c.arg(0), "query"):
            return None
        if l == "cut":
            ctx.fail(pre + ":all", w, "blocks are dropped by %s" % short(c.path))
            return [(ps, {})]
        if l == "rev":
            return [(ps.set(sorted=0), {})]
        ctx.ob(pre + ":order", ascending(ctx, TT, c), w, "blocks are not ordered by ascending id")
        return [(ps.set(sorted=1), {})]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob(pre + ":done", ps.q == 1 and not ps.bad and ps.sorted == 1, ctx.where(b), "the blocks are returned unordered, or although they could not be read")
    proto.run(ctx, TT, root, pre, {"key": ["with_key"], "query": ["query"], "next": ITER, "sort": c30.SORTS, "rev": ["reverse", "rev"], "cut": CUTS + ["skip", "take", "step_by", "filter", "filter_map", "skip_while", "take_while", "dedup", "dedup_by_key"]},
              step, c11.rec(("key", "q", "bad", "sorted", "at", "end")), need=("key", "query", "sort"), frame=fr, assign=assign, ret=ret, reach_extra=lambda x: x.path.startswith(FI))
    ctx.floor(pre + ":infos", len(infos), 1)


def ascending(ctx, TT, c):
    """the sort orders by ascending id"""
    s = short(c.path)
    if s in ("sort", "sort_unstable"):
        return False
    k = c.ex.callables(c.st, c.fr, c.args[1])
    if len(k) != 1:
        return False
    h, cf, ops = k[0]
    x = ctx.F.bodies[h]
    t = strips(TT, TT.local(TT.frame(x, cf, None, tuple((cf, o) for o in ops), ("sort",)), 0, ()))

    def idof(t, i):
        r, p, ok = field(plain(TT, t), "id")
        return ok and r.k == "par" and r.d[:2] == (h, i)
    if "key" in s:
        return idof(t, 2)
    if t.k == "call" and short(t.d[0]) == "unwrap":
        t = strips(TT, t.d[1][0])
    return t.k == "call" and short(t.d[0]) in ("cmp", "partial_cmp") and len(t.d[1]) == 2 and idof(t.d[1][0], 2) and idof(t.d[1][1], 3)


def variants(ctx, adt, default):
    a = ctx.F.adts.get(adt)
    return c30.names(ctx, adt) if a else default


# ---- reading -------------------------------------------------------------------------------------------
def loading(ctx, TT, name, ty):
    """what was requested is placed at the positions it was requested for, if all of it is there"""
    b = ctx.need(CT + ty + ", Config>::" + name)
    if b is None:
        return
    remote = name == "fetch_blocks"
    src = "poll" if remote else "load"
    nexts = CT + "Database, Config>::next_blocks"

    def response(t):
        return any(x.k == "call" and short(x.d[0]).startswith(src) for x in TT.walk(TT.norm(t), 0))

    def asked(t):
        return any(x.k == "call" and x.d[0] == nexts for x in TT.walk(TT.norm(t), 0))

    def request(t, i):
        r, p = fwd.unwrap(plain(TT, t))
        p = [x for x in p if x != "*"]
        while p and p[-1] != str(i):
            p.pop()
        return "requested" in p and p[-1] == str(i)

    def count(t):
        """the number of blocks requested"""
        t = plain(TT, t)
        if remote and request(t, 1):
            return True
        return t.k == "call" and short(t.d[0]) == "len" and asked(t.d[1][0]) and not response(t.d[1][0])

    def received(t):
        t = plain(TT, t)
        return t.k == "call" and short(t.d[0]) == "len" and response(t.d[1][0])

    def branch(ps, st, o, s, val, ex):
        t = TT.norm(ex.term(st, o))
        neg = False
        while t.k == "un" and t.d[0] == "Not":
            t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
        if t.k == "bin" and t.d[0] in FLIP and val in (0, 1):
            x, y, op = t.d[1][0], t.d[1][1], t.d[0]
            if count(x) and received(y):
                x, y, op = y, x, FLIP[op]
            if received(x) and count(y):
                if op in ("Eq", "Ne"):
                    return ps.set(whole=(val ^ neg) if op == "Eq" else 1 - (val ^ neg))
                if op == "Lt":
                    return ps.set(whole=1 - (val ^ neg))
                if op == "Ge":
                    return ps.set(whole=val ^ neg)
        if t.k == "disc":
            d = t.d[0] if not isinstance(t.d[0], tuple) else t.d[0][0]
            r, p = fwd.unwrap(plain(TT, d))
            if [x for x in p if x != "*"][-1:] == ["requested"]:
                return ps.set(req=1 if val == 1 else 0)
        if t.k == "call" and short(t.d[0]) in ("is_some", "is_none") and val in (0, 1):
            r, p = fwd.unwrap(plain(TT, t.d[1][0]))
            if [x for x in p if x != "*"][-1:] == ["requested"]:
                return ps.set(req=val ^ neg ^ (short(t.d[0]) == "is_none"))
        if t.k == "call" and short(t.d[0]) == "is_empty" and asked(t) and val in (0, 1):
            return ps.set(empty=val ^ neg)
        return ps

    def assign(ps, st, place, rv, line, ex):
        w = "%s:%d (%s)" % (st.fr.body.file, line, st.fr.body.path)
        if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("direct::LoadedBlock"):
            f = {n: TT.norm(ex.term(st, o)) for n, o in zip(rv[5], rv[6])}
            d = lin(TT, f["index"])
            if len(d) == 1 and None not in d and list(d)[0].k == "phi":     # counted up from the first
                z = [lin(TT, x) for x in alts(list(d)[0])]
                first = [list(x)[0] for x in z if len(x) == 1 and None not in x and list(x)[0].k != "rec"]
                if len(z) == 2 and len(first) == 1 and [x for x in z if x.get(None) == 1 and len(x) == 2 and all(v == 1 for v in x.values())]:
                    d = {first[0]: 1, T("call", ("index", (TT.norm(f["contents"]),))): 1}
            ok = len(d) == 2 and all(v == 1 for v in d.values()) and None not in d
            if ok:
                ix = [k for k in d if k.k == "call" and short(k.d[0]) == "index" and len(k.d[1]) == 1 and response(k)]
                first = [k for k in d if k not in ix]
                ok = len(ix) == 1 and (request(first[0], 0) if remote else self_field(TT, b, first[0], "current_block"))
            ctx.ob(name + ":position", ok, w, "a block is placed at %s" % show(f["index"])[:100])
            r, p = fwd.unwrap(plain(TT, f["contents"]))
            ctx.ob(name + ":contents", response(f["contents"]) and ("1" in p or "values" in p), w, "the contents of a block are %s" % show(f["contents"])[:80])
            ctx.ob(name + ":whole", ps.whole == 1, w, "blocks are used although some may be missing")
            return ps.set(made=1)
        if len(place) > 1 and place[-1][0] == "f" and place[-1][-1] == "requested" and rv[0] == "use":
            t = strips(TT, ex.term(st, rv[1]))
            if t.k == "agg" and t.d[1] == "None":
                return ps.set(reset=1)
            if ps.pend:
                return ps.set(reset=None)
            tup = dict(t.d[2]).get("0") if t.k == "agg" and t.d[1] == "Some" else t
            f = dict(TT.norm(tup).d[2]) if tup is not None and TT.norm(tup).k == "agg" else {}
            ok = len(f) >= 2 and self_field(TT, b, list(f.values())[0], "current_block") and count(list(f.values())[1])
            ctx.ob(name + ":requested", ok, w, "what is remembered of a request is %s" % show(t)[:80])
            return ps.set(noted=1)
        return ps

    def step(ps, l, c):
        w = c.where()
        if l == "clear":
            return [(ps.set(clear=1), {})] if "loaded" in show(TT.norm(c.arg(0))) else None
        if l == "take":
            r, p = fwd.unwrap(plain(TT, c.arg(0)))
            if [x for x in p if x != "*"][-1:] != ["requested"]:
                return None
            return [(ps.set(req=1, reset=1), {(): 1}), (ps.set(req=0), {(): 0})]
        if l == "load":
            ctx.ob(name + ":ids", asked(c.arg(0)), w, "the blocks loaded are %s" % show(c.arg(0))[:60])
            return [(ps.set(resp=1), res_ok()), (ps.set(resp=1, bad=1), res_err())]
        if l == "poll":
            if "block_receiver" not in show(TT.norm(c.arg(0))):
                return None
            ctx.ob(name + ":outstanding", ps.req == 1, w, "a response is waited for without a request")
            V = (("v", 0, "Ready"), ("f", 0, "0"))
            return [(ps.set(resp=1), {(): 0}), (ps.set(pend=1), {(): 1})]
        if l == "send":
            if "request_sender" not in show(TT.norm(c.arg(0))):
                return None
            ctx.ob(name + ":request", asked(c.arg(1)) and not ps.sent and ps.req == 0 and ps.empty != 1, w, "what is requested is %s" % show(c.arg(1))[:60])
            return [(ps.set(sent=1), res_ok()), (ps.set(sent=1, bad=1), res_err())]
        if l == "next":
            if not response(c.arg(0)):
                return None
            ctx.ob(name + ":each", ps.it != "some" or ps.made == 1, w, "a block that was loaded is not kept")
            return [(ps.set(it="some", made=None), {(): 1}), (ps.set(it="end", made=None), {(): 0})]
        if l == "cut":
            if not response(c.arg(0)):
                return None
            ctx.fail(name + ":each", w, "blocks are dropped by %s" % short(c.path))
            return [(ps, {})]
        if l == "push":
            if "loaded" not in show(TT.norm(c.arg(0))):
                return None
            ctx.ob(name + ":order", short(c.path) != "push_front", w, "blocks are kept in reverse")
            ctx.ob(name + ":cleared", remote or ps.clear == 1, w, "blocks loaded before are kept")
            return [(ps.set(made=1), {})]

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        v = val.get(())
        if remote:
            ctx.ob(name + ":waiting", (v == 1) == bool(ps.pend), w, "waiting is reported without anything to wait for, or a response not being there is not reported as waiting")
            if ps.pend:
                ctx.ob(name + ":waiting", not ps.reset, w, "an outstanding request is forgotten")
                return
            if ps.resp:
                ctx.ob(name + ":answered", ps.reset == 1, w, "a request stays outstanding although it was answered")
                if ps.whole != 1 and ps.it is None:
                    ctx.ob(name + ":errors", failed(val), w, "a response that is an error, or incomplete, is not reported")
            elif ps.req == 0:
                ctx.ob(name + ":request", ps.empty == 1 or ps.sent == 1 and ps.noted == 1 and ps.clear == 1 or failed(val), w, "the next blocks are not requested, or the request is not remembered, or old blocks stay")
            return
        if v == 0:
            ctx.ob(name + ":whole", ps.resp == 1 and ps.whole == 1 and not ps.bad and ps.it != "some", w, "success is reported although blocks are missing")
    proto.run(ctx, TT, b, name, {"clear": ["clear"], "take": ["core::option::Option::<T>::take"], "load": [BL + "load"], "poll": ["poll_unpin", "poll"], "send": ["send", "try_send"], "next": ITER, "push": ["push_back", "push_front", "extend"],
                                 "cut": CUTS + ["skip", "take", "step_by", "filter", "rev", "pop_first", "pop_last", "split_off", "retain"]},
              step, c11.rec(("clear", "req", "reset", "resp", "bad", "pend", "sent", "noted", "empty", "whole", "made", "it")), need=("clear", "push"), branch=branch, assign=assign, ret=ret)


def failed(val):
    """what is returned on this path, wrapped in Poll, is an error (as far as that is known)"""
    return val.get(()) == 0 and val.get((("v", 0), ("f", 0))) != 0


def fetcher(ctx, TT):
    """the task that loads blocks answers each request once"""
    b = ctx.need(CT + AS + ", Config>::spawn_block_fetching_task")
    if b is None:
        return
    roots = [x for x in ctx.F.children.get(b.h, ()) if x.kind == "coroutine"]
    if len(roots) != 1:
        ctx.fail("fetcher:task", ctx.where(b), "the task was not found")
        return

    def step(ps, l, c):
        w = c.where()
        if l == "recv":
            ctx.ob("fetcher:answers", not ps.out, w, "the next request is taken although the last was not answered")
            return [(ps.set(out=1, loaded=None), res_ok()), (ps.set(end=1), res_err())]
        if l == "load":
            ctx.ob("fetcher:ids", any(x.k == "call" and short(x.d[0]).startswith("recv") for x in TT.walk(c.arg(0), 0)) and ps.out == 1, w, "what is loaded is %s" % show(c.arg(0))[:60])
            return [(ps.set(loaded=1), res_ok()), (ps.set(loaded=1), res_err())]
        if not any(x.k == "call" and short(x.d[0]) == "load_async" for x in TT.walk(TT.norm(c.arg(1)), 0)):
            return None
        ctx.ob("fetcher:answers", ps.out == 1 and ps.loaded == 1, w, "what is answered is not what the request asked for")
        return [(ps.set(out=None, loaded=None), res_ok()), (ps.set(end=1, out=None), res_err())]

    def ret(ps, val, st, ex):
        ctx.ob("fetcher:ends", ps.end == 1 and not ps.out, ctx.where(b), "the task ends although requests may come")
    fr = TT.frame(b)
    clo = next((rv for blk in b.blocks for pl, rv, _ in (blk[0] if blk else ()) if rv and rv[0] == "agg" and rv[1] == "coroutine"), None)
    frame = TT.frame(roots[0], fr, None, tuple((fr, o) for o in clo[6]), ("poll",)) if clo else None
    proto.run(ctx, TT, roots[0], "fetcher", {"recv": ["recv_async", "recv"], "load": [BL + "load_async"], "send": ["send", "send_async", "try_send"]}, step, c11.rec(("out", "loaded", "end")), need=("recv", "load", "send"), frame=frame, ret=ret)


def requested(ctx, TT):
    """the blocks requested are those from the current one on, without gaps, at least one"""
    b = ctx.need(CT + "Database, Config>::next_blocks")
    if b is None:
        return
    w = ctx.where(b)
    t = TT.local(TT.frame(b), 0, ())

    def current(t):
        return self_field(TT, b, t, "current_block")

    def upto(t):
        """a position from the current one up to the end"""
        if current(t):
            return True
        t = plain(TT, t)
        if t.k != "elem":
            return False
        r = strips(TT, t.d[0])
        f = dict(r.d[2]) if r.k == "agg" else {}
        return bool(f) and current(f["start"])
    n = 0
    for x in TT.walk(TT.norm(t), 0):
        if x.k == "call" and short(x.d[0]) == "index" and len(x.d[1]) == 2 and self_field(TT, b, x.d[1][0], "blocks"):
            r = strip(TT, x.d[1][1])
            if r.k == "call" and short(r.d[0]) == "new" and len(r.d[1]) == 2:
                lo, hi, incl = r.d[1][0], r.d[1][1], True
            elif r.k == "agg":
                f = dict(r.d[2])
                lo, hi, incl = f.get("start"), f.get("end"), "Inclusive" in r.d[0]
            else:
                continue
            if lo is None or hi is None:
                ctx.fail("next:range", w, "the blocks requested are %s" % show(r)[:80])
                continue
            n += 1
            ctx.ob("next:from", all(current(a) for a in alts(TT.norm(lo))), w, "the first block requested is %s" % show(lo)[:60])
            for a in alts(TT.norm(hi)):
                if incl:
                    ok = upto(a)
                else:
                    d = lin(TT, a)
                    k = [y for y in d if y is not None]
                    ok = d.get(None) == 1 and len(k) == 1 and d[k[0]] == 1 and upto(k[0])
                ctx.ob("next:to", ok, w, "the last block requested is %s%s" % ("" if incl else "before ", show(a)[:80]))
    lv, calls = Prov(ctx, TT, b).of(t)
    if n:
        ctx.ob("next:all", not (calls & set(SELECT)), w, "only some of the blocks are requested: %s" % sorted(calls & set(SELECT)))
        ctx.ob("next:ids", ".id" in lv, w, "blocks are not requested by id: %s" % sorted(lv))

    def step(ps, l, c):
        if l == "push":
            x = c.arg(1)
            ctx.ob("next:ids", ".id" in Prov(ctx, TT, b).of(x)[0] and has(TT, x, "index"), c.where(), "what is requested is %s" % show(x)[:60])
            return [(ps.set(n=1), {})]
    r = proto.run(ctx, TT, b, "next", {"push": ["alloc::vec::Vec::<T, A>::push"]}, step, c11.rec(("n",)))
    ctx.floor("next:ranges", n + r.n.get("push", 0), 1)


def positions(ctx, TT, b, pre):
    """shared: what a branch or an assignment says about the position"""
    def front(t):
        return any(x.k == "call" and short(x.d[0]) in ("front", "pop_front", "get", "index", "peek", "front_mut") for x in TT.walk(TT.norm(t), 0))

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        neg = False
        while t.k == "un" and t.d[0] == "Not":
            t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
        if t.k == "call" and short(t.d[0]) in ("map_or", "is_some_and", "map_or_else") and t.d[1][-1].k == "clo" and front(t.d[1][0]) and (len(t.d[1]) == 2 or const(TT, t.d[1][1], 0)):
            x = ctx.F.bodies[t.d[1][-1].x[0]]           # there is a front block, and this holds of it
            of = TT.frame(x, st.fr, (None, (st.fr, ("t", t.d[1][0]))), tuple((t.d[1][-1].x[1], o) for o in t.d[1][-1].x[2]), ("cond",))
            t = TT.norm(TT.local(of, 0, ()))
        if t.k == "bin" and t.d[0] in FLIP and val in (0, 1):
            v, op, (x, y) = val ^ neg, t.d[0], t.d[1]
            if self_field(TT, b, x, "current_block"):
                x, y, op = y, x, FLIP[op]
            px, py = plain(TT, x), plain(TT, y)
            if self_field(TT, b, py, "current_block"):
                if px.k == "fld" and px.d[1] == "index" and front(px) and op in ("Eq", "Ne"):
                    return ps.set(match=v if op == "Eq" else 1 - v)
                if px.k == "call" and short(px.d[0]) == "len" and self_field(TT, b, px.d[1][0], "blocks"):
                    if op in ("Gt", "Le"):
                        return ps.set(more=v if op == "Gt" else 1 - v)
                    if op in ("Ne", "Eq"):
                        return ps.set(more=v if op == "Ne" else 1 - v)
            d = lin(TT, T("bin", ("Sub", (x, y))))
            n = d.pop(None, 0)
            if len(d) == 1:
                k, co = list(d.items())[0]
                if co < 0:
                    op, n, co = FLIP[op], -n, -co
                z = {("Gt", 0): v, ("Ne", 0): v, ("Eq", 0): 1 - v, ("Le", 0): 1 - v, ("Ge", -1): v, ("Lt", -1): 1 - v}.get((op, n))
                if z is not None and is_cb(k):
                    return ps.set(rl=z)
                if z is not None and self_field(TT, b, k, "offset"):
                    return ps.set(off=z)
        if is_cb(t) and val is not None:
            return ps.set(rl=1 if val else 0)
        if is_cb(t):
            return ps.set(rl=1)
        return ps

    def is_cb(t):
        t = plain(TT, t)
        return t.k == "call" and short(t.d[0]) in ("call_mut", "call", "call_once")

    def what(st, place, rv, ex):
        """(field, what it is set to)"""
        n = place[-1][-1] if len(place) > 1 and place[-1][0] == "f" else None
        if n not in ("offset", "current_block") or place[0] != 1 and not any(e[0] == "*" for e in place[1:]):
            return None
        if rv[0] == "use":
            d = lin(TT, ex.term(st, rv[1]))
        elif rv[0] == "bin":
            ops = [x for x in rv[2:] if isinstance(x, tuple)]
            ops = ops[0] if len(ops) == 1 and ops[0] and isinstance(ops[0][0], tuple) else ops
            d = lin(TT, T("bin", (rv[1], tuple(ex.term(st, o) for o in ops))))
        else:
            return n, None
        return n, d
    return branch, what, is_cb


def bytewise(ctx, TT):
    b = ctx.need(CT + "Database, Config>::non_blocking_read")
    if b is None:
        return
    pre = "read"
    branch, what, is_cb = positions(ctx, TT, b, pre)
    V = ctx.NR

    def settled(ps, w):
        m = (ps.pop or 0, ps.zero or 0, ps.next or 0)
        ctx.ob("read:advance", m in ((0, 0, 0), (1, 1, 1)) or ps.pop is None and m[1:] == (1, 1), w, "leaving a block behind, it is removed %d times, the offset is reset %d times, the position advances %d times" % m)
        ctx.ob("read:advance", m == (0, 0, 0) or ps.rl == 0, w, "a block is left behind although it was not read to its end")
        ctx.ob("read:offset", ps.rl != 1 or ps.adv == 1, w, "bytes that were read are not counted, or twice")

    def step(ps, l, c):
        w = c.where()
        if l == "cb":
            settled(ps, w)
            ctx.ob("read:current", ps.match == 1, w, "bytes are handed out of a block that may not be the current one")
            t = TT.norm(c.arg(1))
            s = None
            for x in TT.walk(t, 0):
                if x.k == "call" and short(x.d[0]) in ("index", "get", "split_at"):
                    r = strip(TT, x.d[1][1])
                    f = dict(r.d[2]) if r.k == "agg" else {}
                    if "start" in f and field(strips(TT, x.d[1][0]), "contents")[2]:
                        s = self_field(TT, b, f["start"], "offset") and ("end" not in f or has(TT, f["end"], "len"))
                        break
            ctx.ob("read:rest", s is True, w, "what is handed out is %s" % show(t)[:80])
            return [(ps.set(rl=None, adv=None, pop=None, zero=None, next=None, read=1), {})]
        if l == "pop":
            if "loaded" not in show(TT.norm(c.arg(0))):
                return None
            if ps.match == 0:               # a block of another position is of no use
                return [(ps.set(match=None), {(): v}) for v in (0, 1)]
            ctx.ob("read:advance", short(c.path) == "pop_front", w, "the last block is removed")
            return [(ps.set(pop=(ps.pop or 0) + 1), {(): v}) for v in (0, 1)]

    def assign(ps, st, place, rv, line, ex):
        x = what(st, place, rv, ex)
        if x is None:
            return ps
        n, d = x
        w = "%s:%d (%s)" % (st.fr.body.file, line, st.fr.body.path)
        if n == "current_block":
            ok = d is not None and d.get(None) == 1 and len(d) == 2 and all(v == 1 for v in d.values()) and all(k is None or self_field(TT, b, k, n) for k in d)
            ctx.ob("read:position", ok, w, "the position is changed otherwise than by one")
            return ps.set(next=min(2, (ps.next or 0) + 1))
        if d == {}:
            return ps.set(zero=min(2, (ps.zero or 0) + 1))
        ok = d is not None and None not in d and len(d) == 2 and all(v == 1 for v in d.values()) and any(self_field(TT, b, k, n) for k in d) and any(is_cb(k) for k in d)
        ctx.ob("read:offset", ok and ps.rl != 0, w, "the offset is changed otherwise than by what was read")
        return ps.set(adv=min(2, (ps.adv or 0) + 1))

    def ret(ps, val, st, ex):
        v = val.get(())
        w = ctx.where(b)
        settled(ps, w)
        if v == V["ReadBytes"]:
            ctx.ob("read:reported", ps.read == 1 and ps.rl == 1 and ps.adv == 1 and not ps.next, w, "bytes are reported that were not read")
        elif v == V["Eof"]:
            ctx.ob("read:end", ps.more == 0 and ps.rl != 1, w, "the end is reported although there are more blocks")
        elif v == V["NeedBlocks"]:
            ctx.ob("read:reported", ps.rl != 1, w, "bytes that were read are not reported")
        else:
            ctx.fail("read:reported", w, "what is reported is not known")
    proto.run(ctx, TT, b, pre, {"cb": ["core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call", "core::ops::function::FnOnce::call_once"], "pop": ["pop_front", "pop_back"]}, step,
              c11.rec(("match", "more", "rl", "off", "adv", "pop", "zero", "next", "read")), need=("cb",), branch=branch, assign=assign, ret=ret)


def blockwise(ctx, TT):
    b = ctx.need(CT + "Database, Config>::non_blocking_read_block")
    if b is None:
        return
    branch, what, _ = positions(ctx, TT, b, "block")
    V = ctx.NB

    def step(ps, l, c):
        w = c.where()
        if l == "pop":
            if "loaded" not in show(TT.norm(c.arg(0))):
                return None
            ctx.ob("block:order", short(c.path) == "pop_front", w, "blocks are taken from the end")
            return [(ps.set(popped=1), {(): 1}), (ps.set(popped=0), {(): 0})]
        if l == "zero":
            return [(ps.set(zero=1), {})] if self_field(TT, b, c.arg(0), "offset") else None
        t = TT.norm(c.arg(1))
        r = strip(TT, t)
        f = dict(r.d[2]) if r.k == "agg" else {}

        def offset(t):
            t = plain(TT, t)
            return self_field(TT, b, t.d[1][0] if t.k == "call" and short(t.d[0]) in ("take", "replace") and t.d[1] else t, "offset")
        if short(c.path) == "split_off" and offset(t) or "end" in f and "start" not in f and offset(f["end"]) or "start" in f and "end" not in f and offset(f["start"]):
            return [(ps.set(cut=1), {})]
        ctx.fail("block:rest", w, "of a block, %s is removed" % show(t)[:60])
        return [(ps, {})]

    def assign(ps, st, place, rv, line, ex):
        x = what(st, place, rv, ex)
        if x is None:
            return ps
        n, d = x
        w = "%s:%d (%s)" % (st.fr.body.file, line, st.fr.body.path)
        if n == "current_block":
            ok = d is not None and d.get(None) == 1 and len(d) == 2 and all(v == 1 for v in d.values()) and all(k is None or self_field(TT, b, k, n) for k in d)
            ctx.ob("block:position", ok, w, "the position is changed otherwise than by one")
            return ps.set(next=min(2, (ps.next or 0) + 1))
        ctx.ob("block:offset", d == {}, w, "the offset is not reset")
        return ps.set(zero=1)

    def ret(ps, val, st, ex):
        v = val.get(())
        w = ctx.where(b)
        if v == V["ReadBlock"]:
            ctx.ob("block:current", ps.match == 1, w, "a block is handed out that may not be the current one")
            ctx.ob("block:position", ps.next == 1, w, "the position advances %d times" % (ps.next or 0))
            ctx.ob("block:rest", ps.off == 0 or ps.cut == 1 and ps.zero == 1, w, "bytes that were read before are handed out again, or the offset stays")
            ctx.ob("block:rest", ps.off != 0 or True, w)
        elif v == V["Eof"]:
            ctx.ob("block:end", ps.more == 0 and not ps.next, w, "the end is reported although there are more blocks")
        elif v == V["NeedBlocks"]:
            ctx.ob("block:lost", not ps.next and not ps.zero and ps.match != 1, w, "a block is skipped")
        else:
            ctx.fail("block:reported", w, "what is reported is not known")
    proto.run(ctx, TT, b, "block", {"pop": ["pop_front", "pop_back"], "zero": ["core::mem::take"], "cut": ["splice", "drain", "split_off", "alloc::vec::Vec::<T, A>::truncate", "alloc::vec::Vec::<T, A>::clear"]}, step, c11.rec(("match", "more", "rl", "off", "popped", "cut", "next", "zero")), need=("pop",),
              branch=branch, assign=assign, ret=ret)


def pump(ctx, TT0, selfty, trait, name, load):
    """what is handed out is reported; nothing ends before the end, and errors are reported"""
    F = ctx.F
    b = ctx.method(FI + "direct::Contents<%s, Config>" % selfty, trait, name)
    if b is None:
        return
    TT = TT0
    block = name in ("next", "poll_next")
    V = ctx.NB if block else ctx.NR
    poll = name.startswith("poll")
    pre = "%s:%s" % ("blocks" if block else "bytes", name)
    done = set()
    NR = CT + "Database, Config>::non_blocking_read" + ("_block" if block else "")
    ld = CT + selfty + ", Config>::" + load

    def step(ps, l, c):
        w = c.where()
        if l == "read":
            if not block:
                for k in c.ex.callables(c.st, c.fr, c.args[1]):
                    if k[0] not in done:
                        done.add(k[0])
                        callback(ctx, TT, b, pre, k, c)
            return [(ps.set(last="data", data=1), {(): V["ReadBlock" if block else "ReadBytes"]}), (ps.set(last="need"), {(): V["NeedBlocks"]}), (ps.set(last="end"), {(): V["Eof"]})]
        if l == "load":
            ctx.ob(pre + ":need", ps.last == "need", w, "blocks are loaded although none are needed")
            if not poll:
                return [(ps.set(last="loaded"), res_ok()), (ps.set(last="error"), res_err())]
            ctx.ob(pre + ":kept", not ps.data or block, w, "data that was read may be lost by waiting for more")
            V0 = (("v", 0), ("f", 0))
            return [(ps.set(last="wait"), {(): 1}), (ps.set(last="error"), {(): 0, V0: 1}),
                    (ps.set(last="loaded"), {(): 0, V0: 0, V0 + V0: 1}), (ps.set(last="end"), {(): 0, V0: 0, V0 + V0: 0})]

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        neg = False
        while t.k == "un" and t.d[0] == "Not":
            t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
        if poll and not block and t.k == "bin" and t.d[0] in FLIP and val in (0, 1):
            x = [any(y.k == "call" and short(y.d[0]) in ("filled", "remaining") for y in TT.walk(TT.norm(z), 0)) for z in t.d[1]]
            if all(x):
                some = {"Gt": 1, "Lt": 1, "Ne": 1, "Eq": 0, "Le": 0, "Ge": 0}[t.d[0]] == (val ^ neg)
                if bool(ps.data) != some:
                    return None
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        v = val.get(())
        V0 = (("v", 0), ("f", 0))
        if ps.last == "wait":
            ctx.ob(pre + ":waiting", v == 1, w, "waiting for blocks is reported as something else")
            return
        if poll:
            ctx.ob(pre + ":waiting", v == 0, w, "waiting is reported without having to wait")
        inner = val.get(V0) if poll else v
        if block:       # an option of a result
            some = inner
            err = val.get((V0 + (("v", 1), ("f", 0))) if poll else (("v", 1), ("f", 0)))
            if ps.last == "end":
                ctx.ob(pre + ":end", some == 0, w, "the end is reported as a block")
            elif ps.last == "error":
                ctx.ob(pre + ":errors", some == 1 and err != 0, w, "an error is reported as the end")
            elif ps.last == "data":
                ctx.ob(pre + ":data", some == 1 and err != 1, w, "a block is not handed out")
            else:
                ctx.fail(pre + ":end", w, "reading ends although blocks are needed")
            return
        if ps.last == "error":
            ctx.ob(pre + ":errors", inner != 0, w, "an error is reported as the end")
        elif ps.last in ("end", "data"):
            ctx.ob(pre + ":data", inner != 1, w, "data that was read is reported as an error")
        else:
            ctx.ob(pre + ":end", bool(ps.data) and inner != 1, w, "reading ends although blocks are needed")
        if name == "read":
            t = TT.norm(ex.term(st, ("c", (0,))))
            ctx.ob(pre + ":count", all(const(TT, a, 0) or any(x.k == "call" and x.d[0] == NR for x in TT.walk(a, 0)) or a.k == "agg" and a.d[1] == "Err" or a.k == "call" for a in alts(t)), w, "the number of bytes reported is %s" % show(t)[:80])
    proto.run(ctx, TT, b, pre, {"read": [NR], "load": [ld]}, step, c11.rec(("last", "data")), need=("read", "load"), branch=branch, ret=ret)
    if not block:
        ctx.floor(pre + ":callbacks", len(done), 1)


def callback(ctx, TT, b, pre, k, c):
    """bytes copied are those at the front, as many as are reported"""
    h, cf, ops = k
    x = ctx.F.bodies[h]
    fr = TT.frame(x, c.fr, None, tuple((cf, o) for o in ops), ("many", c.bb), None)
    n = []

    def step(ps, l, c2):
        w = c2.where()
        src = c2.arg(1)
        s = sliced(TT, src)
        r = strip(TT, src)
        ok = False
        if r.k == "call" and short(r.d[0]) == "index" and len(r.d[1]) == 2:
            f = strip(TT, r.d[1][1])
            f = dict(f.d[2]) if f.k == "agg" else {}
            base = strips(TT, r.d[1][0])
            ok = "end" in f and ("start" not in f or const(TT, f["start"], 0)) and base.k == "par" and base.d[:2] == (h, 2)
            if ok:
                n.append(f["end"])
                e = plain(TT, f["end"])
                ctx.ob(pre + ":fits", e.k == "call" and short(e.d[0]) == "min" and len(e.d[1]) == 2 and any(has(TT, z, "len") and any(y.k == "par" and y.d[:2] == (h, 2) for y in TT.walk(z, 0)) for z in e.d[1]), w, "the number of bytes read is %s" % show(e)[:80])
        ctx.ob(pre + ":bytes", ok, w, "what is read is %s" % show(src)[:80])
        return [(ps.set(n=(ps.n or 0) + 1), {})]

    def ret(ps, val, st, ex):
        t = TT.norm(ex.term(st, ("c", (0,))))
        ctx.ob(pre + ":bytes", ps.n == 1 or const(TT, t, 0), ctx.where(x), "bytes are copied %d times" % (ps.n or 0))
        for e in n:
            ctx.ob(pre + ":reported", lin(TT, t) == lin(TT, e) or const(TT, t, 0), ctx.where(x), "%s bytes are reported, %s are copied" % (show(t)[:40], show(e)[:40]))
    proto.run(ctx, TT, x, pre + ":copy", {"copy": ["copy_from_slice", "put_slice", "clone_from_slice", "extend_from_slice"]}, step, c11.rec(("n",)), need=("copy",), frame=fr, ret=ret)


def seek(ctx, TT):
    b = ctx.method(FI + "direct::Contents<Database, Config>", "core::io::seek::Seek", "seek")
    if b is None:
        return
    branch, what, _ = positions(ctx, TT, b, "seek")
    pi = 2

    def given(t):
        return any(x.k == "par" and x.d[:2] == (b.h, pi) for x in TT.walk(TT.norm(t), 0))

    def found(t):
        return any(x.k == "elem" or x.k == "call" and short(x.d[0]) in ("find", "position", "find_map", "rposition", "partition_point") for x in TT.walk(TT.norm(t), 0))

    def assign(ps, st, place, rv, line, ex):
        w = "%s:%d (%s)" % (st.fr.body.file, line, st.fr.body.path)
        if rv[0] == "bin" and rv[1] in ("AddWithOverflow", "SubWithOverflow", "Add", "Sub"):
            ops = [x for x in rv[2:] if isinstance(x, tuple)]
            ops = ops[0] if len(ops) == 1 and ops[0] and isinstance(ops[0][0], tuple) else ops
            ts = [TT.norm(ex.term(st, o)) for o in ops]
            if any(given(t) for t in ts):
                p = plain(TT, ts[1])
                ok = rv[1].startswith("Sub") and given(ts[0]) and p.k == "fld" and p.d[1] == "offset" and found(p)
                ctx.ob("seek:arithmetic", ok, w, "the position asked for is put into arithmetic that can overflow")
        x = what(st, place, rv, ex)
        if x is None:
            return ps
        n, d = x
        at = None
        if d == {}:
            at = "zero"
        elif n == "current_block" and d is not None:
            k = [y for y in d if y is not None]
            if d.get(None) == -1 and len(k) == 1 and k[0].k == "call" and short(k[0].d[0]) == "len" and d[k[0]] == 1:
                at = "last"
            elif None not in d and len(k) == 1 and d[k[0]] == 1 and (k[0].k == "call" and short(k[0].d[0]) == "index" or found(k[0])):
                at = "found"
        elif n == "offset" and d is not None:
            k = {y: v for y, v in d.items() if y is not None}
            neg = [y for y, v in k.items() if v == -1]
            pos = [y for y, v in k.items() if v == 1]
            if None not in d and len(neg) == 1 and neg[0].k == "fld" and neg[0].d[1] == "offset" and all(given(y) or "position" in show(y) or has(TT, y, "len") or True for y in pos) and pos:
                at = "found"
            elif None not in d and not neg and len(pos) == 1 and pos[0].k == "fld" and pos[0].d[1] == "length":
                at = "last"
        ctx.ob("seek:" + n, at is not None, w, "seeking sets `%s` to %s" % (n, {show(k)[:40] if k is not None else "": v for k, v in (d or {}).items()}))
        return ps.set(**{n: at})

    def step(ps, l, c):
        w = c.where()
        k = c.ex.callables(c.st, c.fr, c.args[1]) if len(c.args) > 1 else ()
        if len(k) == 1:
            h, cf, ops = k[0]
            x = ctx.F.bodies[h]
            t = TT.norm(TT.local(TT.frame(x, cf, None, tuple((cf, o) for o in ops), ("find",)), 0, ()))
            neg = l == "before"
            while t.k == "un" and t.d[0] == "Not":
                t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
            if t.k == "bin" and t.d[0] in FLIP:
                op, (p, q) = t.d[0], t.d[1]
                d = lin(TT, p)
                if len(d) != 2:
                    p, q, op = q, p, FLIP[op]
                    d = lin(TT, p)
                ends = sorted(y.d[1] for y in d if y is not None and y.k == "fld" and y.d[1] in ("offset", "length") and d[y] == 1)
                ctx.ob("seek:block", ends == ["length", "offset"] and len(d) == 2 and op == ("Le" if neg else "Gt"), w, "the block sought is the first for which %s" % show(t)[:100])
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("seek:position", ps.current_block is not None and ps.current_block == ps.offset, ctx.where(b), "the position is set to block `%s` and offset `%s`" % (ps.current_block, ps.offset))
    proto.run(ctx, TT, b, "seek", {"find": ["find", "position", "find_map"], "before": ["partition_point", "skip_while", "take_while"]}, step, c11.rec(("current_block", "offset", "match", "more", "rl", "off")), assign=assign, ret=ret, reach_extra=lambda x: x.path.startswith(FI))


# ---- truncating, removing, writing ---------------------------------------------------------------------
def truncating(ctx, TT):
    b = ctx.need(SF + "create_truncate_transaction")
    if b is None:
        return
    V = variants(ctx, FI + "Truncate", ["RemovingStart", "RemovingEnd"])
    bi, ni, fi = pidx(b, "blocks") or 1, pidx(b, "new_length") or 2, pidx(b, "from") or 3

    def blocks(t):
        return any(x.k == "par" and x.d[:2] == (b.h, bi) for x in TT.walk(TT.norm(t), 0))

    def todo(t):
        """the bytes left to remove"""
        return any(x.k == "par" and x.d[:2] == (b.h, ni) for a in alts(plain(TT, t)) for x in TT.walk(a, 0)) and not is_par(TT, b, t, ni)

    def length(t):
        t = plain(TT, t)
        return t.k == "fld" and t.d[1] == "length" and blocks(t)

    for v, end in enumerate(V):
        pre = "truncate:" + end

        def at_end(t, path):
            if short(path) in ("pop", "pop_back", "last"):
                return end == "RemovingEnd"
            if short(path) in ("pop_front", "first"):
                return end == "RemovingStart"
            z = [lin(TT, a) for a in alts(plain(TT, t))]
            if end == "RemovingStart":
                return all(d == {} for d in z)
            return all(d.get(None) == -1 and len(d) == 2 and all(k is None or k.k == "call" and short(k.d[0]) == "len" and blocks(k) for k in d) for d in z)

        def step(ps, l, c):
            w = c.where()
            if l == "push":
                op = strips(TT, c.arg(1))
                if not (op.k == "call" and short(op.d[0]) == "delete"):
                    ctx.fail(pre + ":deletes", w, "the transaction contains %s" % show(op)[:60])
                    return [(ps, {})]
                h = op.d[1][-1]
                ix = [x for x in TT.walk(TT.norm(h), 0) if x.k == "call" and short(x.d[0]) in ("index", "first", "last", "pop", "remove", "pop_front", "pop_back") and x.d[1]]
                ok = any(blocks(x.d[1][0]) and at_end(x.d[1][1] if len(x.d[1]) > 1 else x, x.d[0]) for x in ix)
                ctx.ob(pre + ":end", ok, w, "the block deleted is %s" % show(h)[:100])
                ctx.ob(pre + ":fits", ps.fits == 1, w, "a block is deleted that may be longer than what is to be removed")
                return [(ps, {})]
            if not blocks(c.arg(0)):
                return None
            if l == "cut":
                ctx.fail(pre + ":end", w, "blocks are dropped by %s" % short(c.path))
                return [(ps, {})]
            ctx.ob(pre + ":end", at_end(c.arg(1) if len(c.args) > 1 else None, c.path), w, "the block taken off is %s" % (show(c.arg(1))[:60] if len(c.args) > 1 else short(c.path)))
            return [(ps, {})]

        def branch(ps, st, o, src, val, ex):
            t = TT.norm(ex.term(st, o))
            neg = False
            while t.k == "un" and t.d[0] == "Not":
                t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
            if t.k == "bin" and t.d[0] in FLIP and val in (0, 1):
                op, (x, y) = t.d[0], t.d[1]
                if length(y) and todo(x):
                    x, y, op = y, x, FLIP[op]
                if length(x) and todo(y):
                    z = {"Le": val ^ neg, "Gt": 1 - (val ^ neg)}.get(op)
                    ctx.ob(pre + ":fits", z is not None, ctx.where(st.fr.body), "whether a block is removed is decided by %s" % show(t)[:80])
                    return ps.set(fits=z)
                if todo(x) and const(TT, y, 0) or todo(y) and const(TT, x, 0):
                    return ps.set(fits=None)
            return ps

        proto.run(ctx, TT, b, pre, {"push": ["bonsaidb_core::transaction::Transaction::push"], "rem": ["alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::pop", "pop_front", "pop_back"], "cut": [x for x in CUTS if not x.endswith(("::remove", "::pop"))]}, step,
                  c11.rec(("fits",)), need=("push",), branch=branch, vals={fi: {(): v}}, prims=True)
    t = [x for x in calls_in(ctx, b, "checked_sub") + calls_in(ctx, b, "saturating_sub")]
    TF = TT.frame(b)
    n = 0
    for blk in t:
        x, y = (TT.norm(TT.op(TF, o)) for o in blk[2])
        ctx.ob("truncate:total", has(TT, x, "sum") and blocks(x) and is_par(TT, b, y, ni), ctx.where(b), "what is to be removed is %s less %s" % (show(x)[:60], show(y)[:40]))


def calls_in(ctx, b, name):
    return [blk[1] for blk in b.blocks if blk and blk[1] and blk[1][0] == "call" and blk[1][1][0] == "k" and short(blk[1][1][1].path) == name]


def removing(ctx, TT, a):
    ty = AS if a else BK
    # truncating applies the transaction made of the file's own blocks
    b, root, fr = root_of(ctx, TT, SF + "truncate" + a)
    if b is not None:
        fi, ni, wi = pidx(b, "file") or 1, pidx(b, "new_length") or 2, pidx(b, "from") or 3

        def step(ps, l, c):
            w = c.where()
            if l == "blocks":
                r, p, ok = field(plain(TT, c.arg(0)), "header", "id")
                ctx.ob("truncate%s:own" % a, ok and r.k == "par" and r.d[:2] == (b.h, fi), w, "the blocks truncated are those of %s" % show(c.arg(0))[:60])
                return [(ps.set(got=1), res_ok()), (ps.set(bad=1), res_err())]
            if l == "make":
                ok = any(x.k == "call" and x.d[0] in (BL + "for_file", BL + "for_file_async") for x in TT.walk(c.arg(0), 0)) and is_par(TT, b, c.arg(1), ni) and is_par(TT, b, c.arg(2), wi)
                ctx.ob("truncate%s:what" % a, ok, w, "what is truncated is %s" % [show(c.arg(i))[:40] for i in range(3)])
                return [(ps.set(made=1), {})]
            ctx.ob("truncate%s:applied" % a, any(x.k == "call" and short(x.d[0]) == "create_truncate_transaction" for x in TT.walk(c.arg(0), 0)) and not ps.n, w, "what is applied is %s" % show(c.arg(0))[:60])
            return [(ps.set(n=1), res_ok()), (ps.set(n=1, bad=1), res_err())]
        proto.run(ctx, TT, root, "truncate" + a, {"blocks": [BL + "for_file", BL + "for_file_async"], "make": [SF + "create_truncate_transaction"], "apply": ["apply", "apply_async"]}, step, c11.rec(("got", "bad", "made", "n")), need=("blocks", "make", "apply"), frame=fr,
                  ret=lambda ps, val, st, ex: val.get(()) == 0 and ctx.ob("truncate%s:done" % a, ps.n == 1 and not ps.bad, ctx.where(b), "truncating succeeds although nothing was applied"))
    # the document first, then the blocks
    b, root, fr = root_of(ctx, TT, FI + "direct::File::<%s, Config>::delete" % ty)
    if b is not None:
        def step2(ps, l, c):
            w = c.where()
            if l == "doc":
                ctx.ob("delete%s:own" % a, self_field(TT, b, c.arg(0), "doc"), w, "what is deleted is %s" % show(c.arg(0))[:60])
                return [(ps.set(doc=1), res_ok()), (ps.set(bad=1), res_err())]
            r, p, ok = field(plain(TT, c.arg(0)), "doc", "header", "id")
            ctx.ob("delete%s:own" % a, ok and r.k == "par" and r.d[:2] == (b.h, 1), w, "the blocks deleted are those of %s" % show(c.arg(0))[:60])
            ctx.ob("delete%s:order" % a, ps.doc == 1 and not ps.bad, w, "the contents are removed before the file is")
            return [(ps.set(blocks=1), res_ok()), (ps.set(blocks=1, bad=1), res_err())]
        proto.run(ctx, TT, root, "delete" + a, {"doc": ["bonsaidb_core::document::collection::CollectionDocument::<C>::delete", "bonsaidb_core::document::collection::CollectionDocument::<C>::delete_async"], "blocks": [BL + "delete_for_file", BL + "delete_for_file_async"]},
                  step2, c11.rec(("doc", "blocks", "bad")), need=("doc", "blocks"), frame=fr,
                  ret=lambda ps, val, st, ex: val.get(()) == 0 and ctx.ob("delete%s:done" % a, ps.doc == 1 and ps.blocks == 1 and not ps.bad, ctx.where(b), "deleting succeeds although the file or its contents stay"))
    b, root, fr = root_of(ctx, TT, BL + "delete_for_file" + a)
    if b is not None:
        fi2 = pidx(b, "file_id") or 1

        def step3(ps, l, c):
            if l == "key":
                ctx.ob("unblock%s:own" % a, is_par(TT, b, c.arg(1), fi2), c.where(), "the blocks deleted are those of %s" % show(c.arg(1))[:60])
                return [(ps.set(key=1), {})]
            ctx.ob("unblock%s:own" % a, ps.key == 1, c.where(), "the blocks of all files are deleted")
            return [(ps.set(n=1), res_ok()), (ps.set(bad=1), res_err())]
        proto.run(ctx, TT, root, "unblock" + a, {"key": ["with_key"], "delete": ["delete_docs"]}, step3, c11.rec(("key", "n", "bad")), need=("key", "delete"), frame=fr,
                  ret=lambda ps, val, st, ex: val.get(()) == 0 and ctx.ob("unblock%s:done" % a, ps.n == 1 and not ps.bad, ctx.where(b), "removing blocks succeeds although they stay"))
    # a handle says what the database was told
    for n in ("rename", "move_to"):
        b, root, fr = root_of(ctx, TT, FI + "direct::File::<%s, Config>::%s" % (ty, n))
        if b is None:
            continue

        def step4(ps, l, c):
            return [(ps.set(up=1), res_ok()), (ps.set(up=1, bad=1), res_err())]

        def assign4(ps, st, place, rv, line, ex):
            own = st.fr.body in (b, root) or len(place) > 1 and any(x.k == "par" and x.d[:2] == (b.h, 1) for x in alts(strips(TT, TT.local(st.fr, place[0], ()))))
            if own and len(place) > 1 and [e[-1] for e in place if isinstance(e, tuple) and e[0] == "f"][-1:] == ["doc"]:
                ctx.ob("%s%s:own" % (n, a), ps.up == 1 and not ps.bad, "%s:%d" % (st.fr.body.file, line), "the handle changes although the database did not")
                return ps.set(put=1)
            return ps

        def branch4(ps, st, o, src, val, ex):
            t = TT.norm(ex.term(st, o))
            neg = False
            while t.k == "un" and t.d[0] == "Not":
                t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
            if t.k == "call" and val in (0, 1) and t.d[1] and any(x.k == "par" and x.d[:2] == (b.h, 2) for x in TT.walk(TT.norm(t.d[1][0]), 0)):
                v = val ^ neg
                if short(t.d[0]) == "is_empty":
                    return ps.set(empty=v)
                if short(t.d[0]) == "contains":
                    return ps.set(slash=v)
                if short(t.d[0]) == "starts_with":
                    return ps.set(abs=v)
            return ps

        def ret4(ps, val, st, ex):
            w = ctx.where(b)
            if val.get(()) == 0:
                ctx.ob("%s%s:done" % (n, a), ps.up == 1 and not ps.bad and ps.put == 1, w, "the file is reported as renamed although it was not, or the handle keeps the old name")
            if ps.up:
                ctx.ob("%s%s:name" % (n, a), ps.empty == 0 and ps.slash == 0 if n == "rename" else ps.abs == 1, w, "a name is stored that was not found to be valid")
        proto.run(ctx, TT, root, n + a, {"update": ["bonsaidb_core::document::collection::CollectionDocument::<C>::update", "bonsaidb_core::document::collection::CollectionDocument::<C>::update_async"]}, step4,
                  c11.rec(("up", "bad", "put", "empty", "slash", "abs")), need=("update",), frame=fr, assign=assign4, branch=branch4, ret=ret4)
    # creating: the contents are appended to the file that was created
    b, root, fr = root_of(ctx, TT, SF + "create_file" + a)
    if b is None:
        return
    ci, nm = pidx(b, "contents") or 3, pidx(b, "name") or 2

    def step5(ps, l, c):
        w = c.where()
        if l == "push":
            ctx.ob("create%s:name" % a, ps.empty == 0 and ps.slash == 0, w, "a file is created under a name that was not found to be valid")
            x = strips(TT, c.arg(0))
            f = dict(x.d[2]) if x.k == "agg" else {}
            if f:
                ctx.ob("create%s:name" % a, is_par(TT, b, f["name"], nm), w, "the name is %s" % show(f["name"])[:40])
            return [(ps.set(made=1), res_ok()), (ps.set(bad=1), res_err())]
        r = TT.norm(c.arg(1))
        ctx.ob("create%s:contents" % a, is_par(TT, b, c.arg(0), ci) and any(x.k == "call" and short(x.d[0]).startswith("push_into") for x in TT.walk(r, 0)) and ps.made == 1, w, "what is appended is %s, to %s" % (show(c.arg(0))[:40], show(r)[:40]))
        return [(ps.set(app=1), res_ok()), (ps.set(app=1, bad=1), res_err())]

    def branch5(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        neg = False
        while t.k == "un" and t.d[0] == "Not":
            t, neg = TT.norm(t.d[1][0] if isinstance(t.d[1], tuple) else t.d[1]), not neg
        if t.k == "call" and val in (0, 1) and t.d[1] and is_par(TT, b, t.d[1][0], nm):
            if short(t.d[0]) == "is_empty":
                return ps.set(empty=val ^ neg)
            if short(t.d[0]) == "contains":
                return ps.set(slash=val ^ neg)
        return ps
    proto.run(ctx, TT, root, "create" + a, {"push": ["push_into", "push_into_async"], "append": [BL + "append", BL + "append_async"]}, step5, c11.rec(("made", "bad", "app", "empty", "slash")), need=("push", "append"), frame=fr, branch=branch5,
              ret=lambda ps, val, st, ex: val.get(()) == 0 and ctx.ob("create%s:done" % a, ps.made == 1 and ps.app == 1 and not ps.bad, ctx.where(b), "creating a file succeeds although it, or its contents, were not stored"))


def handle(ctx, TT, a):
    """a handle acts on its own file, with what it was given"""
    ty = AS if a else BK
    for n, target in (("append", BL + "append"), ("truncate", SF + "truncate"), ("contents", BL + "for_file")):
        b, root, fr = root_of(ctx, TT, FI + "direct::File::<%s, Config>::%s" % (ty, n))
        if b is None:
            continue

        def own(t, *names):
            r, p = fwd.unwrap(plain(TT, t))
            p = [x for x in p if x not in ("*", "0", "pointer", "__pointer")]
            return r.k == "par" and r.d[:2] == (b.h, 1) and p == list(names)

        def step(ps, l, c):
            w = c.where()
            args = [c.arg(i) for i in range(len(c.args))]
            if n == "append":
                ok = is_par(TT, b, args[0], 2) and own(args[1], "doc", "header", "id")
            elif n == "truncate":
                ok = own(args[0], "doc") and is_par(TT, b, args[1], 2) and is_par(TT, b, args[2], 3)
            else:
                ok = own(args[0], "doc", "header", "id")
            ctx.ob("handle%s:%s" % (a, n), ok and own(args[-1], "database") and not ps.n, w, "%s is called with %s" % (short(c.path), [show(x)[:40] for x in args]))
            return [(ps.set(n=1), res_ok()), (ps.set(n=1, bad=1), res_err())]

        def assign(ps, st, place, rv, line, ex):
            if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("direct::Contents"):
                f = {k: TT.norm(ex.term(st, o)) for k, o in zip(rv[5], rv[6])}
                ok = has(TT, f["blocks"], "for_file" + a) and const(TT, f["current_block"], 0) and const(TT, f["offset"], 0)
                ctx.ob("handle%s:start" % a, ok, "%s:%d" % (st.fr.body.file, line), "reading starts with blocks %s at %s, %s" % (show(f["blocks"])[:40], show(f["current_block"])[:20], show(f["offset"])[:20]))
            return ps
        proto.run(ctx, TT, root, "handle%s:%s" % (a, n), {"op": [target, target + "_async"]}, step, c11.rec(("n", "bad")), need=("op",), frame=fr, assign=assign,
                  ret=lambda ps, val, st, ex: ctx.ob("handle%s:%s" % (a, n), ps.n == 1 and (val.get(()) == 0) == (not ps.bad) or val.get(()) is None and ps.n == 1, ctx.where(b), "the outcome of `%s` is not that of the operation" % n))


def writing(ctx, TT, a):
    """what a buffered writer accepts is in its buffer, and leaves it only to be appended"""
    ty = FI + "direct::%sBufferedAppend<'a, Config, Database>" % ("Async" if a else "")
    b = ctx.method(ty, "tokio::io::async_write::AsyncWrite" if a else "core::io::write::Write", "poll_write" if a else "write")
    if b is not None:
        di = 3 if a else 2
        ext = []

        def step(ps, l, c):
            w = c.where()
            if l == "flush":
                if not a:
                    return [(ps.set(flushed=1), res_ok()), (ps.set(bad=1), res_err())]
                V0 = (("v", 0), ("f", 0))
                return [(ps.set(flushed=1), {(): 0, V0: 0}), (ps.set(bad=1), {(): 0, V0: 1}), (ps.set(wait=1), {(): 1})]
            if "buffer" not in show(TT.norm(c.arg(0))):
                return None
            s = sliced(TT, c.arg(1))
            base = s[0] if s else strips(TT, c.arg(1))
            ctx.ob("write%s:data" % a, base.k == "par" and base.d[:2] == (b.h, di) and (s is None or s[1] == (0, 0)), w, "what is kept is %s" % show(c.arg(1))[:60])
            r = strip(TT, c.arg(1))
            if s is not None and r.k == "call" and len(r.d[1]) == 2:
                f = strip(TT, r.d[1][1])
                ext.append(dict(f.d[2]).get("end") if f.k == "agg" else None)
            ctx.ob("write%s:data" % a, not ps.wait and not ps.bad, w, "data is kept although flushing failed or has not ended")
            return [(ps.set(n=(ps.n or 0) + 1), {})]

        def ret(ps, val, st, ex):
            w = ctx.where(b)
            v = val.get(())
            inner = val.get((("v", 0), ("f", 0))) if a else v
            if a and v == 1:
                ctx.ob("write%s:waiting" % a, ps.wait == 1 and not ps.n, w, "waiting is reported although data was kept, or without having to wait")
                return
            if inner == 0:
                t = TT.norm(ex.term(st, ("c", (0,))))
                ctx.ob("write%s:errors" % a, not ps.bad, w, "writing succeeds although flushing failed")
                for e in ext:
                    if e is not None:
                        ctx.ob("write%s:count" % a, any(lin(TT, x) == lin(TT, e) for x in alts(t)) and all(lin(TT, x) == lin(TT, e) or const(TT, x, 0) or x.k in ("agg", "call") for x in alts(t)), w, "the number of bytes reported as written is %s" % show(t)[:60])
                ctx.ob("write%s:data" % a, (ps.n or 0) <= 1, w, "data is kept twice")
            elif inner == 1:
                ctx.ob("write%s:data" % a, not ps.n, w, "data is kept although an error is reported")
        proto.run(ctx, TT, b, "write" + a, {"flush": ["flush", "poll_flush"], "extend": ["extend", "extend_from_slice"]}, step, c11.rec(("flushed", "bad", "wait", "n")), need=("extend", "flush"), ret=ret)
    if a:
        return
    b = ctx.method(ty, "core::io::write::Write", "flush")
    if b is None:
        return

    def step2(ps, l, c):
        w = c.where()
        if l == "append":
            ctx.ob("flush:data", self_field(TT, b, c.arg(1 if "File" in c.path else 0), "buffer"), w, "what is appended is %s" % show(c.arg(1 if "File" in c.path else 0))[:60])
            return [(ps.set(app=1), res_ok()), (ps.set(bad=1), res_err())]
        if "buffer" not in show(TT.norm(c.arg(0))):
            return None
        ctx.ob("flush:kept", ps.app == 1 and not ps.bad, w, "the buffer is emptied although its contents were not appended")
        return [(ps.set(clear=1), {})]
    proto.run(ctx, TT, b, "flush", {"append": [BL + "append", FI + "direct::File::<%s, Config>::append" % BK], "clear": ["alloc::vec::Vec::<T, A>::clear", "truncate", "drain"]}, step2, c11.rec(("app", "bad", "clear")), need=("append", "clear"),
              ret=lambda ps, val, st, ex: val.get(()) == 0 and ctx.ob("flush:done", ps.app == 1 and ps.clear == 1 and not ps.bad, ctx.where(b), "flushing succeeds although nothing was appended, or what was appended stays in the buffer"))


def resizing(ctx, TT, a):
    """the buffer of a writer is replaced only after what was in it was appended"""
    ty = FI + "direct::%sBufferedAppend" % ("Async" if a else "")
    from c15 import exact
    SW = ("core::mem::take", "core::mem::replace", "core::mem::swap")

    def mine(b):
        return ty + "<" in b.path or any(x.peel().adt == ty for x in b.locals)

    def replaces(b):
        for bl in b.blocks:
            if not bl:
                continue
            if any(len(place) > 1 and place[-1][0] == "f" and len(place[-1]) > 2 and place[-1][2] == "buffer" for place, rv, _ in bl[0]):
                return True
            t = bl[1]
            if t[0] == "call" and t[1][0] == "k" and getattr(t[1][1], "path", None) in SW:
                if any(exact(TT, TT.op(TT.frame(b), x), "buffer") for x in t[2]):
                    return True
        return False

    def outer(b):
        return ctx.F.by_path[b.path.split("::{closure")[0]][0] if b.kind == "closure" else b
    roots, todo, met = [], [outer(b) for b in ctx.F.bodies.values() if b.path.startswith(FI + "direct::") and mine(b) and replaces(b)], set()
    while todo:         # the methods that have it replaced: a helper is judged in those that call it
        b = todo.pop()
        if b.h in met:
            continue
        met.add(b.h)
        if short(b.path) in ("flush", "poll_flush", "drop"):
            continue
        up = [outer(c) for c, _, _ in proto.callers(ctx.F, b) if mine(c) and c.path.startswith(FI + "direct::")]
        up = [c for c in up if c.h != b.h]
        if up:
            todo += up
        else:
            roots.append(b)
    ctx.floor("resizing" + a, len(roots), 1)
    for root in roots:

        def step(ps, l, c):
            if l == "flush":
                return [(ps.set(out=1), res_ok()), (ps.set(bad=1), res_err())]
            if l == "replace":
                if not any(exact(TT, c.arg(i), "buffer") for i in range(2 if short(c.path) != "take" else 1)):
                    return None
                return [(replaced(ps, c.where()), {})]
            if l == "size":
                if "buffer" not in show(TT.norm(c.arg(0))):
                    return None
                return [(ps.set(out=1), {(): 1}), (ps, {(): 0})]
            return None

        def branch(ps, st, o, src, val, ex):
            return ps.set(out=1) if nothing(TT.norm(ex.term(st, o)), val) else ps

        def nothing(t, val):
            """does this outcome of the comparison say that the buffer is empty?"""
            if t.k == "un" and t.d[0] == "Not" and val in (0, 1):
                return nothing(TT.norm(t.d[1][0]), 1 - val)
            if t.k == "call" and short(t.d[0]) in ("len", "capacity"):
                return val == 0 and buf(t)
            if t.k != "bin" or t.d[0] not in ("Gt", "Ne", "Eq", "Lt", "Ge", "Le"):
                return False
            op, (x, y) = t.d[0], (TT.norm(z) for z in t.d[1][:2])
            if buf(y):
                x, y, op = y, x, {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op, op)
            if not buf(x) or y.k != "con":
                return False
            return (op, str(y.d[0]), val) in (("Gt", "0", 0), ("Ne", "0", 0), ("Eq", "0", 1), ("Le", "0", 1), ("Ge", "1", 0), ("Lt", "1", 1))

        def buf(t):
            return t.k == "call" and short(t.d[0]) in ("len", "capacity") and "buffer" in show(TT.norm(t.d[1][0]))

        def replaced(ps, w):
            ctx.ob("resize%s:kept" % a, ps.out == 1 and not ps.bad, w, "the buffer is replaced although what is in it was not appended")
            return ps.set(put=1)

        def assign(ps, st, place, rv, line, ex):
            if len(place) > 1 and place[-1][0] == "f" and len(place[-1]) > 2 and place[-1][2] == "buffer" and mine(st.fr.body):
                return replaced(ps, "%s:%s" % (st.fr.body.file, line))
            return ps
        proto.run(ctx, TT, root, "resize" + a, {"flush": ["flush", "poll_flush"], "replace": list(SW), "size": ["alloc::vec::Vec::<T, A>::is_empty"]}, step, c11.rec(("out", "bad", "put")),
                  need=("flush",), quiet=("size",), assign=assign, branch=branch)
