"""C21: a storage is open in one place at a time, under one identity."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c17
import fwd
import proto
from prov import LOSSY, Prov, inner

EXPLAIN = ("The opening of a storage's id file is explored over compiler MIR on every path, with each step succeeding and failing, an id configured or not and the "
           "file empty or not; where the lock goes from there - the storage's shared data, every opened database's context and its background thread - is "
           "followed, with what happens before and after it is let go.")
RULE = ("The id file is opened without discarding its contents, locked exclusively, and only then read or written; failing to lock fails the opening. It is written only "
        "when empty, with the id that is returned; otherwise the id is the configured one or the one read. The lock on that same file is kept with the id, in the storage's shared data and by "
        "the worker of every opened database, which lets go of it last and only once the database's state is gone; nothing else unlocks it. Nothing of the storage is touched before it is held.")
ASSUME = ["The file system's advisory locks work, and other programs do not touch the files.", "C15 (what a context does when it is dropped)."]
L = "bonsaidb_local::"
S = L + "storage::"
LOCK = S + "Storage::lookup_or_create_id"
LD = S + "LockData"
SL = S + "StorageLock"
LOCKS = ("lock_exclusive", "try_lock_exclusive")


def check(ctx):
    TT = ctx.terms(opaque={LOCK, L + "database::Context::new", SL + "::id"})
    identity(ctx)
    opening(ctx, TT)
    kept(ctx, TT)
    worker(ctx, TT)


def identity(ctx):
    TT = ctx.terms(opaque=LOSSY)
    b = ctx.F.body(LOCK)
    if b is None:
        return ctx.fail("identity", "", "function not found")

    def opts(ctx, t, w):
        on = {}
        for x in TT.walk(TT.norm(t), 0):
            if x.k == "call" and x.d[0].startswith("std::fs::OpenOptions::") and len(x.d[1]) == 2 and short(x.d[0]) != "open":
                on[short(x.d[0])] = show(x.d[1][1])
        for o in ("truncate", "append"):
            ctx.ob("id:" + o, on.get(o, "0") in ("0", "false"), w, "the id file is opened with %s" % o)
        ctx.ob("id:exclusive-create", on.get("create_new", "0") in ("0", "false"), w, "an existing id file cannot be opened")

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "create":
            ctx.fail("id:truncate", w, "the id file is emptied before it is locked")
            return None
        if l == "opt":
            v = show(TT.norm(c.arg(1)))
            ctx.ob("id:" + n, v in ("0", "false"), w, "the id file is opened with %s: what it holds is lost before it is locked" % n)
            return None
        if l == "open":
            opts(ctx, c.arg(0), w)
            return [(ps.set(open=1), res_ok()), (ps, res_err())]
        if l == "lock":
            ctx.ob("id:locked-file", any(x.k == "call" and short(x.d[0]) == "open" for x in TT.walk(TT.norm(c.arg(0)), 0)), w, "what is locked is %s" % show(c.arg(0))[:60])
            return [(ps.set(locked=1, what=show(c17.strip(TT, c.ex.term(c.st, c.args[0], c.fr)))), res_ok()), (ps.set(locked=0), res_err())]
        if l == "weak":
            ctx.fail("id:shared", w, "the id file is only locked with %s" % n)
            return None
        if l == "unlock":
            return [(ps.set(locked=0), {})]
        if l == "read":
            ctx.ob("id:read-locked", ps.locked == 1, w, "the id file is read although it is not locked")
            return [(ps.set(read=1), res_ok()), (ps, res_err())]
        if l == "empty":
            return [(ps.set(empty=1), {(): 1}), (ps.set(empty=0), {(): 0})]
        if l == "write":
            ctx.ob("id:write-locked", ps.locked == 1, w, "the id file is written although it is not locked")
            ctx.ob("id:overwritten", ps.empty == 1 and ps.read == 1, w, "the id file is written although it was not found empty")
            ctx.ob("id:once", ps.wrote is None, w, "the id file is written twice")
            return [(ps.set(wrote=idof(ctx, TT, TT.norm(c.ex.term(c.st, c.args[1], c.fr)))), res_ok()), (ps.set(bad=1), res_err())]
        return None

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if "unique_id" in show(t) and (t.k == "disc" or src is not None):
            return ps.set(conf=1 if val == 1 else 0)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) != 0:
            return
        w = ctx.where(b)
        ctx.ob("id:locked", ps.locked == 1, w, "a storage is opened without its id file being locked")
        ctx.ob("id:failed", not ps.bad, w, "a storage is opened although its id could not be written")
        ctx.ob("id:kept", ps.empty == 0 or ps.wrote is not None, w, "a storage is opened with an id that is not kept")
        ex.within(st, lambda: returned(ps, TT.norm(ex.term(st, ("c", (0,)))), w))

    def returned(ps, t, w):
        for a in alts(t):
            if a.k == "agg" and a.d[1] == "Err":
                continue
            f = dict(a.d[2]) if a.k == "agg" and a.d[0] == SL else None
            if f is None:
                ctx.fail("id:returned", w, "what is returned is %s" % show(a)[:80])
                continue
            i = idof(ctx, TT, TT.norm(f["0"]))
            fs = [dict(x.d[2])["0"] for x in TT.walk(TT.norm(f["1"]), 1) if x.k == "agg" and x.d[0] == LD]
            ctx.ob("id:file", len(fs) == 1 and show(c17.strip(TT, fs[0])) == ps.what, w, "the lock that is kept is %s" % show(f["1"])[:60])
            ctx.ob("id:written", ps.wrote is None or ps.wrote == i, w, "the id written is %s, the one used %s" % (ps.wrote and ps.wrote[0], i[0]))
            want = "unique_id" if ps.conf == 1 else ("parse" if ps.empty == 0 else "gen")
            # the configured id, or else a new one: which of the two is decided in one expression
            else_new = i[0] == "gen+unique_id" and ps.empty == 1 and any(x.k == "phi" for x in TT.walk(TT.norm(f["0"]), 0))
            ctx.ob("id:which", i[0] == want or else_new, w, "with %s id and %s file, the id used is %s" % ("a configured" if ps.conf else "no configured", "an empty" if ps.empty else "a filled", i[0]))
    proto.run(ctx, TT, b, "id", {"open": ["std::fs::OpenOptions::open"], "create": ["std::fs::File::create", "std::fs::write"], "opt": ["std::fs::OpenOptions::truncate", "std::fs::OpenOptions::append", "std::fs::OpenOptions::create_new"],
                                 "lock": LOCKS, "weak": ["lock_shared", "try_lock_shared"], "unlock": ["unlock"], "read": ["read_to_end", "read_to_string", "read_exact", "std::io::Read::read"],
                                 "write": ["write_all", "write_fmt", "set_len", "std::io::Write::write"], "empty": ["is_empty"]}, step,
              c11.rec(("open", "locked", "read", "empty", "wrote", "bad", "conf", "what")), need=("open", "lock", "read", "write", "empty"), ret=ret, branch=branch, kcap=24, prims=True)


def idof(ctx, TT, t):
    """where an id comes from, and by which call"""
    out, at = set(), set()
    for x in inner(ctx, TT, t):
        if x.k == "fld" and x.d[1] == "unique_id":
            out.add("unique_id")
        elif x.k == "call" and short(x.d[0]) in ("gen", "random", "parse", "from_str", "gen_range"):
            out.add({"from_str": "parse", "random": "gen"}.get(short(x.d[0]), short(x.d[0])))
            at.add((x.x[1].body.path, x.x[3]) if x.x else None)
        elif x.k == "call" and short(x.d[0]) in ("ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            out.add(short(x.d[0]))
        elif x.k in ("bin", "un"):
            out.add(x.d[0])
    return "+".join(sorted(out)) or "unknown", tuple(sorted(at))


def opening(ctx, TT):
    """nothing of the storage is touched before the lock is held"""
    b = ctx.F.body(S + "Storage::open")
    FIRST = {L + "vault::Vault::initialize": "vault", S + "Storage::cache_available_databases": "list", S + "Storage::create_admin_database_if_needed": "admin"}

    def step(ps, l, c):
        if l == "lock":
            return [(ps.set(locked=1), res_ok()), (ps.set(locked=0), res_err())]
        ctx.ob("opening:first:%s" % short(c.path), ps.locked == 1, c.where(), "%s happens before the storage is locked" % short(c.path))
        if l == "vault":
            t = TT.norm(c.arg(0))
            ctx.ob("opening:identity", any(x.k == "call" and x.d[0] == LOCK for x in TT.walk(t, 0)), c.where(), "the vault is opened for %s" % show(t)[:60])
        return [(ps.set(**{l: 1}), res_ok()), (ps, res_err())]

    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == S + "Data":
            t = TT.norm(ex.TT.op(st.fr, dict(zip(rv[5], rv[6]))["lock"]))
            ctx.ob("opening:kept", any(x.k == "call" and x.d[0] == LOCK for x in TT.walk(t, 0)) and ps.locked == 1, ctx.where(st.fr.body, line), "the lock kept in the storage is %s" % show(t)[:60])
            return ps.set(kept=1)
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("opening:locked", ps.locked == 1 and ps.kept == 1, ctx.where(b), "a storage is opened without its lock being held")
    proto.run(ctx, TT, b, "opening", {"lock": [LOCK], "vault": [L + "vault::Vault::initialize"], "list": [S + "Storage::cache_available_databases"], "admin": [S + "Storage::create_admin_database_if_needed"]}, step,
              c11.rec(("locked", "kept", "vault", "list", "admin")), need=("lock", "vault", "admin", "list"), ret=ret, assign=assign)


def kept(ctx, TT):
    """every holder of the lock"""
    F = ctx.F
    n = 0
    for h, b in F.bodies.items():
        if not b.path.lstrip("<").startswith("bonsaidb"):
            continue
        fr = None
        for i, blk in enumerate(b.blocks):
            if blk is None:
                continue
            for st in blk[0]:
                rv = st[1]
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] == LD:
                    n += 1
                    ctx.ob("kept:made", b.path == SL + "::new" or b.path == LOCK, ctx.where(b, st[2]), "a lock is made here")
            t = blk[1]
            if not t or t[0] != "call":
                continue
            fn = t[1][1] if isinstance(t[1], tuple) else t[1]
            p = getattr(fn, "path", "")
            if short(p) == "unlock" and "File" in p:
                ctx.ob("kept:unlock", LD in b.path and "Drop" in b.path, ctx.where(b, t[5]), "the storage is unlocked here")
            if p == L + "database::Context::new":
                n += 1
                fr = fr or TT.frame(b, None, None)
                a = TT.norm(TT.op(fr, t[2][2]))
                ok = a.k == "agg" and a.d[1] == "Some" or a.k != "agg" and "data.lock" in show(a)
                ctx.ob("kept:context", ok and "data.lock" in show(a) and not [x for x in Prov(ctx, TT, b).of(a)[1] - {"data"}], ctx.where(b, t[5]), "a database is opened with the lock %s" % show(a)[:60])
    ctx.floor("holders", n, 2)
    d = ctx.method(LD, "core::ops::drop::Drop", "drop")
    cl = [b.path for b in F.bodies.values() if "LockData" in b.path and "clone" in b.path]
    ctx.ob("kept:one", not cl, "", "the lock itself can be duplicated: %s" % cl)


def worker(ctx, TT):
    c = ctx.F.body(L + "database::Context::new")
    BW = L + "database::keyvalue::background_worker"
    n = 0
    for b in [c] + list(ctx.F.children.get(c.h, ())):
        for blk in b.blocks:
            if blk is None or not blk[1] or blk[1][0] != "call":
                continue
            fn = blk[1][1][1] if isinstance(blk[1][1], tuple) else blk[1][1]
            if getattr(fn, "path", "") == BW:
                n += 1
                fr = TT.frame(b, None, None)
                a = TT.norm(TT.op(fr, blk[1][2][2]))
                ctx.ob("worker:passed", c17.strip(TT, a).k in ("par", "upv"), ctx.where(b, blk[1][5]), "the worker of a database gets the lock %s" % show(a)[:60])
    ctx.floor("workers", n, 1)

    def lockdrops(ps, st, place, ty, line, ex=None):
        s = ty.s if ty is not None else ""
        if "StorageLock" in s and ps.moved is None:
            return ps.set(gone=1)
        return ps

    def cstep(ps, l, call):
        if l == "spawn":
            # the closure that is run captures the lock it was given
            t = call.arg(1) if len(call.args) > 1 else call.arg(0)
            ok = any(x.k == "clo" and any(par3(TT, c, TT.norm(TT.op(x.x[1], o))) for o in x.x[2]) for x in TT.walk(TT.norm(t), 0) if x.k == "clo" and x.x is not None)
            ctx.ob("worker:given", ok, call.where(), "the worker of a database does not get the storage's lock")
            ctx.ob("worker:alive", ps.gone is None, call.where(), "the lock is let go before the worker has it")
            return [(ps.set(moved=1), res_ok()), (ps, res_err())]
        return None
    proto.run(ctx, TT, c, "worker:start", {"spawn": ["spawn"]}, cstep, c11.rec(("moved", "gone")), need=("spawn",), drop=lockdrops)
    b = ctx.F.body(BW)

    te = ctx.F.adts.get("watchable::TimeoutError")
    over = [v["name"] if isinstance(v, dict) else v[0] for v in te["variants"]].index("Disconnected") if te else 0

    def drop(ps, st, place, ty, line, ex=None):
        s = ty.s if ty is not None else ""
        if "StorageLock" in s and st.fr.body.h == b.h:
            return ps.set(gone=1)
        return ps

    def step(ps, l, call):
        w = call.where()
        if l == "drop":
            t = TT.norm(call.arg(0))
            if par(TT, b, t, 3):
                return [(ps.set(gone=1), {})]
            return None
        ctx.ob("worker:last", ps.gone is None, w, "%s happens after the lock was let go" % short(call.path))
        if l == "wait":
            if short(call.path) == "watch":
                return [(ps, res_ok()), (ps.set(over=1), res_err())]
            return [(ps, res_ok())] + [(ps.set(over=1) if i == over else ps, {(): 1, (("v", 1), ("f", 0)): i}) for i in range(2)]
        if l == "alive":
            return [(ps, {(): 1}), (ps.set(over=1), {(): 0})]
        return [(ps, {})]

    def ret(ps, val, st, ex):
        ctx.ob("worker:over", ps.over == 1, ctx.where(b), "the worker of a database ends, and lets go of the lock, while the database is in use")
    proto.run(ctx, TT, b, "worker", {"drop": ["core::mem::drop"], "wait": ["watch", "watch_timeout"], "alive": ["upgrade"], "work": ["remove_expired_keys", "commit_dirty_keys", "needs_commit", "update_background_worker_target"]},
              step, c11.rec(("gone", "over")), need=("wait", "alive", "work"), ret=ret, drop=drop)


def par(TT, b, t, i):
    return c17.par(TT, b, t, i)


def par3(TT, b, t):
    return par(TT, b, t, 3)
