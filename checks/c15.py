"""C15: acknowledged key-value changes reach the disk, in order, and are not lost."""
from terms import alts, short, show
from explore import res_ok, res_err
import c07
import c11
import c14
import proto

EXPLAIN = ("The life of a key-value change is followed over compiler MIR through every path of: the execution of an operation, the staging of "
           "unsaved changes, the thread that saves them (with each of its storage accesses failing and succeeding, with and without a shutdown "
           "in progress), the background worker, the shutdown of a database and the listing of all entries. The swap that writes a key is explored "
           "per state of the key. All places that replace the collections of pending changes are enumerated.")
RULE = ("Unsaved changes leave `dirty_keys` only by becoming `keys_being_persisted`, and only when nothing is being saved. Those are forgotten "
        "only after one transaction containing exactly them and its log entry was committed (or nothing had changed), or after having been put "
        "back without replacing newer changes. Saving then continues to be scheduled; a shutdown that waits is answered only when "
        "nothing remains unsaved or a last attempt was made. A database is dropped only after waiting for what is being or remains to be "
        "saved, without holding the lock. Every successful operation and every wake-up of the worker saves when the rules say so. "
        "The list of all entries applies what is being saved to what is on disk, and unsaved changes to that.")
ASSUME = ["nebari's commit is atomic and durable; a spawned thread runs."]
K, KV, BM, BE = c14.K, c14.KV, c14.BM, c14.BE
TXN = "nebari::roots::Roots::<File>::transaction"
LOCK = "lock_api::mutex::Mutex::<R, T>::lock"
SOMEP = {(): 1}


def field(TT, t, name):
    """is the term the named field (of whatever state), possibly as a reference or view of it?"""
    t = TT.norm(t)
    return any(x.k == "fld" and x.d[1] == name for a in alts(t) for x in TT.walk(a, 0))


def exact(TT, t, name):
    t = TT.norm(t)
    return any(a.k == "fld" and a.d[1] == name for a in alts(t))      # (what is assigned to it later may be listed as well)


def assigns(place, b, name, F):
    """is `place` the whole field `name` of a KeyValueState?"""
    if len(place) < 2 or place[-1][0] != "f":
        return False
    return place[-1][2] == name if len(place[-1]) > 2 else False


def check(ctx):
    TT = ctx.terms()
    seen = set()
    for f in (saving, swap, staging, committing, shutdown, dropping, operation, needs, worker, entries):
        f(ctx, TT, seen)
    writers(ctx, seen)


# ---- the thread that saves -----------------------------------------------------------------------------
PF = ("tx", "mod", "log", "com", "empty", "held", "back", "shut", "rest", "again", "sent", "next", "bad")


def saver(ctx):
    """the functions that write staged keys (recursive through themselves)"""
    return ctx.needs("KeyValueState::persist_staged_keys")


def saving(ctx, TT, seen):
    bs = saver(ctx)
    if not bs:
        return
    b = bs[0]
    inner = [x for x in ctx.F.find("KeyValueState::persist_keys") if x.kind != "closure"]
    inner_h = {x.h for x in inner}

    def has_tx(t):
        return any(x.k == "call" and short(x.d[0]) == "transaction" for x in TT.walk(TT.norm(t), 0))

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "save":
            x = c.body()
            if x is None or x.h not in inner_h:
                return None
            if ps.tx is None and not ps.bad and x.h not in c.fr.stack:
                return None                                             # the first attempt is followed
            ctx.ob("again:staged", ps.rest is True, w, "a further attempt to save is made although nothing was staged")
            ctx.ob("again:these", any(y.k == "call" and short(y.d[0]) == "stage_dirty_keys" for i in range(len(c.args)) for y in TT.walk(c.arg(i), 0)), w, "a further attempt saves %s" % show(c.arg(len(c.args) - 1))[:80])
            inn = x.h in c.fr.stack
            # what the attempt does about a waiting shutdown is what this exploration shows about the first one
            return [(ps.set(again=True, sent=ps.sent or inn and bool(ps.shut), held=False), res_ok()), (ps.set(again=True, bad=True, held=inn), res_err())]
        if l == "begin":
            ctx.ob("begin:tree", any(x.k in ("con", "str") and x.d[0] == "kv" or x.k == "con" and "KEY_TREE" in str(x.d[0]) for x in TT.walk(c.arg(1), 2)), w, "the transaction is not of the key-value tree: %s" % show(c.arg(1))[:60])
            return [(ps.set(tx=True), res_ok()), (ps.set(tx=False, bad=True), res_err())]
        if l == "tree":
            return [(ps, {(): 1})]
        if l == "modify":
            k = c.arg(1)
            ctx.ob("save:all", field_par(TT, k, "keys") and not c11_bad(TT, k), w, "the keys written are %s" % show(TT.norm(k))[:90])
            return [(ps.set(mod=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "log":
            t = [x for x in TT.walk(c.arg(1), 2) if x.k == "agg" and x.d[1] == "Keys"]
            ctx.ob("log:keys", bool(t), w, "the transaction's entry lists %s" % show(c.arg(1))[:80])
            return [(ps.set(log=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "ser":
            return [(ps, res_ok()), (ps.set(bad=True), res_err())]
        if l == "commit":
            ctx.ob("commit:written", ps.mod is True, w, "the transaction is committed without the keys having been written")
            ctx.ob("commit:logged", ps.log is True, w, "the transaction is committed without an entry listing the changed keys")
            return [(ps.set(com=True), res_ok()), (ps.set(bad=True), res_err())]
        if l == "empty":
            if not any("ChangedKey" in a.s for a in c.fn.args):
                return None
            if ps.empty is not None:
                return [(ps, {(): int(ps.empty)})]
            return [(ps.set(empty=True), {(): 1}), (ps.set(empty=False), {(): 0})]
        if l == "opt":
            if exact(TT, c.arg(0), "shutdown"):
                v = {"is_some": 1, "is_none": 0}.get(n)
                if v is None:
                    return None if ps.shut is None else [(ps, {(): int(ps.shut)})]
                outs = []
                for s in ((True, False) if ps.shut is None else (ps.shut,)):
                    outs.append((ps.set(shut=s), {(): v if s else 1 - v}))
                return outs
            return None
        if l == "take":
            a = c.arg(0)
            if exact(TT, a, "shutdown"):
                return [(ps.set(shut=s), {(): int(s)}) for s in ((True, False) if ps.shut is None else (ps.shut,))]
            if exact(TT, a, "keys_being_persisted"):
                if not ps.held:
                    return [(ps, {(): 0})]
                return [(ps.set(held="taken"), {(): 1})]
            if field(TT, a, "dirty_keys"):
                return None
            return None
        if l == "back":
            if not field(TT, c.arg(0), "dirty_keys"):
                return None
            ctx.ob("back:newer", n in ("or_insert", "or_insert_with") or "VacantEntry" in c.path, w, "a key that has been changed since is overwritten with the change that could not be saved")
            ctx.ob("back:value", any(x.k == "elem" or "next" in show(x) for x in TT.walk(c.arg(1), 1)) or n == "or_insert_with", w, "what is put back is %s" % show(c.arg(1))[:80])
            skipped = [x for i in (0, 1) for x in c11_bad(TT, c.arg(i))]
            ctx.ob("back:all", not skipped, w, "not all changes that could not be saved are put back (%s)" % ", ".join(skipped))
            return [(ps.set(back=True), {})]
        if l == "ins":
            if field(TT, c.arg(0), "dirty_keys") and not any(x.k == "call" and short(x.d[0]) == "entry" for x in TT.walk(c.arg(0), 0)):
                ctx.fail("back:newer", w, "a key that has been changed since is overwritten with the change that could not be saved")
            return None
        if l == "stage":
            return [(ps.set(rest=True, held=True), {(): 1}), (ps.set(rest=False), {(): 0})]
        if l == "send":
            if not field(TT, c.arg(0), "shutdown"):
                return None
            ctx.ob("shutdown:last", ps.rest is False or ps.again is True, w, "a waiting shutdown is told that all changes are saved although it was not looked for unsaved ones")
            ctx.ob("shutdown:saved", ps.held is not True or ps.again is True and ps.bad, w, "a waiting shutdown is told that all changes are saved before they are")
            return [(ps.set(sent=True), {})]
        if l == "next":
            # while changes are listed as being saved, the time for saving others is not looked at
            return [(ps.set(next=ps.next or ps.held is not True), {})]
        return None

    def forget(ps, w):
        ok = ps.com is True or ps.empty is True
        ctx.ob("forget:saved", ok and not ps.bad, w, "the changes being saved are forgotten %s" % ("after an attempt that failed" if ps.bad else "before they are committed"))
        return ps.set(held=False)

    def assign(ps, st, place, rv, line, ex):
        if assigns(place, st.fr.body, "keys_being_persisted", ctx.F) and rv[0] in ("use", "agg"):
            seen.add(st.fr.body.path)
            return forget(ps, "%s:%d" % (st.fr.body.file, line))
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        if not ps.bad or (ps.com or ps.empty) and not ps.again:
            ctx.ob("saved:forgotten", ps.held is not True or ps.again, w, "changes that have been saved remain listed as being saved: nothing is saved any more")
            ctx.ob("saved:scheduled", ps.next is True, w, "changes made while others were saved are not scheduled to be saved")
        elif not ps.again:
            ctx.ob("failed:kept", ps.held is True and False or ps.held == "taken" and ps.back is True or ps.rest is True, w,
                   "changes that could not be saved are %s" % ("not put back" if ps.held == "taken" else "stuck as being saved"))
        ctx.ob("shutdown:looked", ps.shut is not None or ps.again is True, w, "it is not looked whether a shutdown is waiting")
        if ps.shut:
            ctx.ob("shutdown:told", ps.sent is True, w, "a waiting shutdown is never told")
    r = proto.run(ctx, TT, b, "saving", {
        "save": [x.path for x in inner], "begin": [TXN], "tree": ["nebari::roots::ExecutingTransaction::<File>::tree"],
        "modify": ["nebari::roots::TransactionTree::<Root, File>::modify"], "log": ["nebari::transaction::log::LogEntry::<'a>::set_data"],
        "commit": ["nebari::roots::ExecutingTransaction::<File>::commit"], "empty": ["alloc::vec::Vec::<T, A>::is_empty"],
        "ser": ["serialize_executed_transaction_changes"],
        "opt": c14.EVENTS["opt"], "take": ["core::option::Option::<T>::take", "core::mem::take", "core::mem::replace"],
        "back": c14.EVENTS["ent"], "ins": [BM + "insert", BM + "append"], "stage": [KV + "stage_dirty_keys"], "send": ["flume::Sender::<T>::send"], "next": [KV + "update_background_worker_target"]},
        step, c11.rec(PF, held=True, bad=False, rest=None), ret=ret, assign=assign, nonempty=True, kcap=64,
        need=("begin", "modify", "log", "commit", "send", "stage", "back"), quiet=("take", "opt", "empty", "ser", "ins"),
        stop=lambda x: x.path in (KV + "stage_dirty_keys", KV + "update_background_worker_target"))
    seen.add(b.path)


def field_par(TT, t, name):
    return any(x.k in ("par", "upv") and show(x).split(".")[-1] == name or x.k == "fld" and x.d[1] == name for x in TT.walk(TT.norm(t), 1))


def c11_bad(TT, t):
    return [short(x.d[0]) for x in TT.walk(TT.norm(t), 0) if x.k == "call" and short(x.d[0]) in ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by", "map_while", "range") and ("iter" in str(x.d[0]) or short(x.d[0]) == "range")]


# ---- what is written for a key -------------------------------------------------------------------------
def swap(ctx, TT, seen):
    KO = "nebari::tree::btree_entry::KeyOperation"
    bs = [x for h, x in ctx.F.bodies.items() if x.kind == "closure" and x.path.startswith(KV) and x.locals[0].peel().adt == KO and x.argc == 3]
    ctx.floor("swap", len(bs), 1)
    for b in bs:
        CK = "bonsaidb_core::transaction::ChangedKey"
        names = None

        def own(t):
            return any(show(x) == b.names.get(2, "key") or x.k == "par" and x.d[1] == 2 for x in TT.walk(TT.norm(t), 1))

        def step(ps, l, c):
            w = c.where()
            if l == "get":
                ctx.ob("swap:key", own(c.arg(1)), w, "the change written for a key is that of %s" % show(c.arg(1))[:60])
                return [(ps.set(new=True), {(): 1, (("v", 1), ("f", 0)): 1}), (ps.set(new=False), {(): 1, (("v", 1), ("f", 0)): 0})]
            if l == "push":
                t = [x for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "agg" and x.d[0] == CK]
                if not t:
                    return None
                f = dict(t[0].d[2])
                k, n = show(TT.norm(f["key"])), show(TT.norm(f["namespace"]))
                ctx.ob("swap:logged-key", "split" in k and own(f["key"]) and own(f["namespace"]) and k != n, w, "the key logged is %s / %s" % (n[:40], k[:40]))
                return [(ps.set(log=ps.log + 1), {})]
            if l == "some":
                if own(c.arg(0)) or not par(c.arg(0)):
                    return None
                p = short(c.path) == "is_some"
                return [(ps.set(old=x), {(): int(x == p)}) for x in ((True, False) if ps.old is None else (ps.old,))]
            if l == "ser":
                ctx.ob("swap:value", any(x.k == "call" and short(x.d[0]) == "get" for x in TT.walk(c.arg(0), 0)), w, "the value written is %s" % show(c.arg(0))[:80])
                return [(ps.set(ser=True), res_ok())]
            return None

        def par(t):
            return any(x.k == "par" and x.d[1] == 3 for x in TT.walk(TT.norm(t), 0))

        def branch(ps, st, o, src, val, ex):
            if src is not None and src[0] == 3 and st.fr.body.h == b.h and val is not None:
                return ps.set(old=bool(val))
            return ps

        def assign(ps, st, place, rv, line, ex):
            if rv[0] == "agg" and rv[2] == CK:
                i = rv[5].index("deleted")
                v = ex.opval(st.env, st.fr, rv[6][i]).get(())
                ctx.ob("swap:deleted", v is None or bool(v) == (ps.new is False), "%s:%d" % (st.fr.body.file, line), "a key that is %s is logged as %s" % ("set" if ps.new else "removed", "removed" if v else "set"))
            return ps

        def ret(ps, val, st, ex):
            w = ctx.where(b)
            v = val.get(())
            vs = [x[0] for x in ctx.F.adts[KO]["variants"]] if KO in ctx.F.adts else ["Skip", "Set", "Remove"]
            k = vs[v] if v is not None else None
            if ps.new:
                ctx.ob("swap:set", k == "Set" and ps.ser, w, "a key that was set is saved as %s" % k)
                ctx.ob("swap:set-logged", ps.log == 1, w, "a key that was set is logged %d times" % ps.log)
            elif ps.new is False:
                ctx.ob("swap:remove", k == "Remove" or k == "Skip" and ps.old is False, w, "a key that was removed is saved as %s" % k)
                ctx.ob("swap:remove-logged", ps.log == (1 if k == "Remove" else 0), w, "a key that was removed is logged %d times" % ps.log)
            else:
                ctx.fail("swap:looked", w, "a key is saved without its change having been looked up")
        proto.run(ctx, TT, b, "swap", {"get": [BM + "get"], "push": ["alloc::vec::Vec::<T, A>::push"], "some": ["core::option::Option::<T>::is_some", "core::option::Option::<T>::is_none"],
                                       "ser": ["bincode::serialize"]}, step, c11.rec(("new", "old", "log", "ser"), log=0), ret=ret, branch=branch, assign=assign, need=("get", "push", "ser"), kcap=32)


# ---- staging -------------------------------------------------------------------------------------------
def staging(ctx, TT, seen):
    bs = ctx.needs("KeyValueState::stage_dirty_keys")
    if not bs:
        return
    b = bs[0]
    seen.add(b.path)

    def step(ps, l, c):
        n, w = short(c.path), c.where()
        if l == "empty":
            if not exact(TT, c.arg(0), "dirty_keys"):
                return None
            return [(ps.set(dirty=True), {(): 0}), (ps.set(dirty=False), {(): 1})]
        if l == "opt":
            if not exact(TT, c.arg(0), "keys_being_persisted") or n not in ("is_some", "is_none"):
                return None
            return [(ps.set(busy=x), {(): int(x == (n == "is_some"))}) for x in (True, False)]
        swap = n == "swap"
        if swap:
            mine, other = (c.arg(0), c.arg(1)) if field(TT, c.arg(0), "dirty_keys") else (c.arg(1), c.arg(0))
            if not empty_map(other):
                return None
        else:
            mine = c.arg(0)
        if not field(TT, mine, "dirty_keys"):
            return None
        ctx.ob("stage:idle", ps.busy is False, w, "changes are staged while others are being saved: those would be forgotten")
        return [(ps.set(took="swap" if swap else True), {})]

    def empty_map(t):
        return any(x.k == "call" and short(x.d[0]) in ("new", "default") and not x.d[1] for x in TT.walk(TT.norm(t), 0)) and not field(TT, t, "dirty_keys")

    def assign(ps, st, place, rv, line, ex):
        if assigns(place, st.fr.body, "keys_being_persisted", ctx.F):
            t = ex.term(st, rv[1]) if rv[0] == "use" else ex.term(st, rv[6][0]) if rv[0] == "agg" and rv[6] else None
            ok = t is not None and any(x.k == "call" and short(x.d[0]) in ("take", "replace") and field(TT, x.d[1][0], "dirty_keys") for x in TT.walk(TT.norm(t), 0))
            # what a new map was swapped for is what the field held
            ok = ok or t is not None and ps.took == "swap" and empty_map(t)
            ctx.ob("stage:these", ok and ps.took, "%s:%d" % (st.fr.body.file, line), "what is listed as being saved is %s" % (show(t)[:80] if t else rv[0]))
            return ps.set(listed=True)
        return ps

    def branch(ps, st, o, src, val, ex):
        if src is not None and val is not None and exact(TT, ex.term(st, ("c", src)), "keys_being_persisted"):
            return ps.set(busy=bool(val)) if ps.busy is None else ps
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        v = val.get(())
        ctx.ob("stage:listed", not ps.took or ps.listed, w, "unsaved changes are taken without being listed as being saved")
        ctx.ob("stage:reported", v is None or bool(v) == bool(ps.took), w, "staging %s changes although %s" % ("reports" if v else "reports no", "some were" if ps.took else "none were"))
        ctx.ob("stage:all", ps.took or ps.dirty is False or ps.busy is True, w, "unsaved changes are not staged although nothing is being saved")
    base = c11.rec(("dirty", "busy", "took", "listed"))
    proto.run(ctx, TT, b, "stage", {"empty": [BM + "is_empty"], "opt": c14.EVENTS["opt"], "take": ["core::mem::take", "core::mem::replace", "core::mem::swap"]},
              step, base, ret=ret, assign=assign, branch=branch, need=("take",), kcap=32)


def committing(ctx, TT, seen):
    bs = ctx.needs("KeyValueState::commit_dirty_keys")
    if not bs:
        return
    b = bs[0]
    savers = {x.path for x in saver(ctx)}

    def step(ps, l, c):
        w = c.where()
        if l == "stage":
            return [(ps.set(st=True), {(): 1}), (ps.set(st=False), {(): 0})]
        if l == "spawn":
            clos = [x for i in range(len(c.args)) for x in TT.walk(c.arg(i), 0) if x.k == "clo"]
            ok = False
            for x in clos:
                h, cf, ops = x.x
                ok |= any(p in savers for p in callees(ctx, h))
                ctx.ob("commit:these", any(y.k == "call" and short(y.d[0]) == "stage_dirty_keys" for o in ops for y in TT.walk(TT.op(cf, o), 0)), w, "the thread that saves is not given the staged changes")
            ctx.ob("commit:saves", ok, w, "the thread that is started does not save")
            ctx.ob("commit:staged", ps.st is True, w, "a thread is started although nothing was staged")
            return [(ps.set(run=True), res_ok())]
        return None

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        ctx.ob("commit:run", not ps.st or ps.run, w, "changes are staged but not saved: nothing is saved any more")
        v = val.get(())
        ctx.ob("commit:reported", v is not None and bool(v) == bool(ps.st), w, "reports %s although changes %s staged" % (v, "were" if ps.st else "were not"))
    proto.run(ctx, TT, b, "commit", {"stage": [KV + "stage_dirty_keys"], "spawn": ["std::thread::builder::Builder::spawn", "std::thread::spawn", "std::thread::Builder::spawn", "spawn"]}, step, c11.rec(("st", "run")), ret=ret,
              need=("stage", "spawn"), stop=lambda x: x.path == KV + "stage_dirty_keys")


def callees(ctx, h):
    from explore import callgraph
    g = callgraph(ctx.F)
    seen, work = set(), [h]
    out = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        out |= g["calls"].get(x, set())
        for y in ctx.F.children.get(x, ()):
            work.append(y if isinstance(y, str) else y.h)
    return out


# ---- ending --------------------------------------------------------------------------------------------
def shutdown(ctx, TT, seen):
    bs = [x for x in ctx.needs("KeyValueState::shutdown")]
    if not bs:
        return
    b = bs[0]

    def register(ps, t, w):
        ctx.ob("shutdown:sender", t is not None and any(x.k == "call" and short(x.d[0]) in ("bounded", "unbounded") for x in TT.walk(TT.norm(t), 0)), w, "who waits is recorded as %s" % (show(t)[:60] if t else "nothing"))
        return ps.set(reg=True)

    def step(ps, l, c):
        n = short(c.path)
        if l == "opt":
            if not exact(TT, c.arg(0), "keys_being_persisted") or n not in ("is_some", "is_none"):
                return None
            return [(ps.set(busy=x), {(): int(x == (n == "is_some"))}) for x in ((True, False) if ps.busy is None else (ps.busy,))]
        if l == "put":
            return [(register(ps, c.arg(1), c.where()), {})] if exact(TT, c.arg(0), "shutdown") else None
        return [(ps.set(left=x if not ps.busy else False), {(): int(x if not ps.busy else False)}) for x in (True, False)]

    def assign(ps, st, place, rv, line, ex):
        if assigns(place, st.fr.body, "shutdown", ctx.F):
            t = ex.term(st, rv[1]) if rv[0] == "use" else ex.term(st, rv[6][0]) if rv[0] == "agg" and rv[6] else None
            return register(ps, t, "%s:%d" % (st.fr.body.file, line))
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        v = val.get(())
        if v == 0:
            ctx.ob("shutdown:nothing", ps.busy is False and ps.left is False, w, "a shutdown does not wait although changes %s" % ("are being saved" if ps.busy is not False else "remain unsaved"))
        elif v == 1:
            ctx.ob("shutdown:registered", ps.reg is True, w, "a shutdown waits without being told when everything is saved")
            ctx.ob("shutdown:ends", ps.busy or ps.left, w, "a shutdown waits although nothing is being saved")
        else:
            ctx.fail("shutdown:outcome", w, "it cannot be told whether a shutdown waits")
    proto.run(ctx, TT, b, "shutdown", {"opt": c14.EVENTS["opt"], "commit": [KV + "commit_dirty_keys"], "put": ["core::option::Option::<T>::replace", "core::option::Option::<T>::insert"]}, step, c11.rec(("busy", "left", "reg")), ret=ret, assign=assign, need=("opt", "commit"),
              stop=lambda x: x.path == KV + "commit_dirty_keys")


def dropping(ctx, TT, seen):
    bs = [x for x in ctx.F.bodies.values() if x.kind != "closure" and short(x.path) == "drop" and KV + "shutdown" in callees(ctx, x.h)]
    ctx.floor("drops", len(bs), 1)
    for b in bs:
        def step(ps, l, c):
            w = c.where()
            if l == "lock":
                return [(ps.set(held=True), {})] if field(TT, c.arg(0), "key_value_state") else None
            if l == "shut":
                return [(ps.set(wait=True), {(): 1}), (ps.set(wait=False), {(): 0})]
            if not any(x.k == "call" and short(x.d[0]) == "shutdown" for x in TT.walk(c.arg(0), 0)):
                return None
            ctx.ob("drop:unlocked", not ps.held, w, "the lock is held while waiting: saving can never finish")
            return [(ps.set(got=True), res_ok()), (ps.set(got=True), res_err())]

        def drop(ps, st, place, ty, line, ex):
            return ps.set(held=False) if ty is not None and "MutexGuard" in ty.s and len(place) == 1 else ps

        def ret(ps, val, st, ex):
            ctx.ob("drop:shutdown", ps.wait is not None, ctx.where(b), "the key-value store is dropped without being shut down")
            ctx.ob("drop:waits", not ps.wait or ps.got, ctx.where(b), "the key-value store is dropped without waiting for changes to be saved")
        proto.run(ctx, TT, b, "drop", {"lock": [LOCK], "shut": [KV + "shutdown"], "recv": ["flume::Receiver::<T>::recv", "flume::Receiver::<T>::recv_timeout", "flume::Receiver::<T>::try_recv"][:1]}, step, c11.rec(("held", "wait", "got")),
                  ret=ret, drop=drop, need=("shut", "recv"), stop=lambda x: x.path == KV + "shutdown", tracked=lambda ty: "MutexGuard" in ty.s)


# ---- when --------------------------------------------------------------------------------------------------
def operation(ctx, TT, seen):
    bs = ctx.needs("KeyValueState::perform_kv_operation")
    if not bs:
        return
    b = bs[0]
    EX = {x.path for x in ctx.F.bodies.values() if x.path.startswith(KV) and x.h != b.h and x.kind != "closure" and x.locals[0].s.startswith("core::result::Result<%sOutput" % c14.CORE)}

    def step(ps, l, c):
        if l == "exec":
            return [(ps.set(ex=True), res_ok()), (ps.set(ex=False), res_err())]
        if l == "needs":
            return [(ps.set(need=x), {(): int(x)}) for x in (True, False)]
        if l == "commit":
            return [(ps.set(com=True), {})]
        return [(ps.set(next=True), {})]

    def ret(ps, val, st, ex):
        if ps.ex is not True:
            return
        w = ctx.where(b)
        ctx.ob("operation:asked", ps.need is not None or ps.com, w, "after an operation it is not looked whether changes are to be saved")
        ctx.ob("operation:saved", not ps.need or ps.com, w, "after an operation changes that are to be saved are not")
        ctx.ob("operation:scheduled", ps.next is True, w, "after an operation the saving of its changes is not scheduled")
    proto.run(ctx, TT, b, "operation", {"exec": sorted(EX), "needs": [KV + "needs_commit"], "commit": [KV + "commit_dirty_keys"], "next": [KV + "update_background_worker_target"]}, step,
              c11.rec(("ex", "need", "com", "next")), ret=ret, need=("exec", "needs", "commit", "next"), stop=lambda x: x.path in EX or short(x.path) in ("needs_commit", "commit_dirty_keys", "update_background_worker_target", "remove_expired_keys"))


def needs(ctx, TT, seen):
    """The persistence rules are asked about the number of unsaved changes and the time since the last commit."""
    n = 0
    for b in ctx.F.bodies.values():
        if not b.path.startswith(KV):
            continue
        for bl in b.blocks:
            if bl is None or bl[1][0] != "call" or bl[1][1][0] != "k" or short(getattr(bl[1][1][1], "rpath", "")) not in ("should_commit", "duration_until_next_commit"):
                continue
            n += 1
            fr = TT.frame(b)
            a = [TT.norm(TT.op(fr, o)) for o in bl[1][2]]
            w = "%s:%d" % (b.file, bl[1][5])
            ctx.ob("rules:changes", "len(" in show(a[1]) and "dirty_keys" in show(a[1]), w, "the rules are asked about %s changes" % show(a[1])[:60])
            ctx.ob("rules:elapsed", "last_commit" in show(a[2]), w, "the rules are asked about %s elapsed" % show(a[2])[:60])
    ctx.floor("rules asked", n, 2)
    b = ctx.needs("KeyValueState::needs_commit")
    if b:
        b = b[0]

        def step(ps, l, c):
            if l == "opt":
                if not exact(TT, c.arg(0), "keys_being_persisted"):
                    return None
                p = short(c.path) == "is_some"
                return [(ps, {(): int(x == p)}) for x in (True, False)]
            return [("yes", {(): 1}), ("no", {(): 0})]

        def ret(ps, val, st, ex):
            v = val.get(())
            if ps in ("yes", "no"):
                ctx.ob("rules:answer", v == (1 if ps == "yes" else 0), ctx.where(b), "changes are %s although the rules say otherwise" % ("saved" if v else "not saved"))
            else:
                ctx.ob("rules:asked", v == 0, ctx.where(b), "changes are saved without the rules having been asked")
        proto.run(ctx, TT, b, "rules", {"opt": c14.EVENTS["opt"][2:], "ask": ["should_commit"]}, step, "?", ret=ret, need=("ask",))
    # the rules themselves
    for b in ctx.needs("KeyValuePersistence::lazy")[:1]:
        calls = callees(ctx, b.h)
        d = [x for x in ctx.F.find("KeyValuePersistence::duration_until_next_commit")]
        tw = any("take_while" in short(p) for x in d for p in callees(ctx, x.h))
        ctx.ob("rules:sorted", not tw or any(short(p).startswith("sort") for p in calls), ctx.where(b), "persistence rules are read up to the first that does not apply, but are not sorted")


def worker(ctx, TT, seen):
    bs = [b for b in ctx.F.find("background_worker") if b.path.startswith(K) and b.kind != "closure"]
    ctx.floor("worker", len(bs), 1)
    for b in bs:
        T = K + "BackgroundWorkerProcessTarget"
        vs = [v[0] for v in ctx.F.adts[T]["variants"]]

        def settle(ps, w):
            if ps.t in ("Now", "Timestamp") and ps.up:
                ctx.ob("worker:asked", ps.need is not None or ps.com or ps.slept is False, w, "the worker was woken but does not look whether changes are to be saved")
                ctx.ob("worker:saved", not ps.need or ps.com, w, "the worker does not save changes that are to be saved")
                ctx.ob("worker:scheduled", ps.next or ps.need is None and not ps.com, w, "the worker does not determine when to run next")
            return START

        def step(ps, l, c):
            w = c.where()
            if l == "read":
                return [(settle(ps, w), {})]
            if l == "wait":
                return [(ps, res_ok()), (ps.set(t="gone"), res_err())]
            if l == "upgrade":
                return [(ps.set(up=True), {(): 1}), (ps.set(up=False), {(): 0})]
            if l == "needs":
                return [(ps.set(need=x), {(): int(x)}) for x in (True, False)]
            if l == "commit":
                return [(ps.set(com=True), {})]
            return [(ps.set(next=True), {})]

        def branch(ps, st, o, src, val, ex):
            if src is not None and val is not None and val < len(vs) and c07.place_ty(st.fr.body, src) is not None and c07.place_ty(st.fr.body, src).peel().adt == T and st.fr.body.h == b.h and ps.t is None:
                return ps.set(t=vs[val])
            return ps

        def ret(ps, val, st, ex):
            settle(ps, ctx.where(b))
        START = c11.rec(("t", "up", "need", "com", "next", "slept"))
        proto.run(ctx, TT, b, "worker", {"read": ["watchable::Watcher::<T>::read", "read"], "wait": ["watchable::Watcher::<T>::watch", "watchable::Watcher::<T>::watch_timeout"], "upgrade": ["alloc::sync::Weak::<T, A>::upgrade", "upgrade"],
                                         "needs": [KV + "needs_commit"], "commit": [KV + "commit_dirty_keys"], "next": [KV + "update_background_worker_target"]}, step, START, rets=1, ret=ret, branch=branch,
                  need=("read", "upgrade", "needs", "commit", "next"), kcap=64, stop=lambda x: x.path in (KV + "needs_commit", KV + "commit_dirty_keys", KV + "update_background_worker_target", KV + "remove_expired_keys"))


# ---- everything there is -------------------------------------------------------------------------------
def entries(ctx, TT, seen):
    bs = [x for x in ctx.F.find("all_key_value_entries") if x.kind != "closure"] or ctx.needs("Database::all_key_value_entries")
    if not bs:
        return
    b = bs[0]
    RANK = {"keys_being_persisted": 1, "dirty_keys": 2}

    def source(*ts):
        s = {x.d[1] for t in ts for x in TT.walk(TT.norm(t), 1) if x.k == "fld"}
        r = [v for k, v in RANK.items() if k in s]
        return r[0] if len(r) == 1 else None

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "lock":
            return [(ps.set(lock=True), {})] if field(TT, c.arg(0), "key_value_state") else None
        if l == "scan":
            ctx.ob("entries:locked", ps.lock, w, "what is on disk is read without the key-value lock: a change could be missed")
            ctx.ob("entries:disk", ps.at == 0, w, "what is on disk is added over newer changes")
            return [(ps.set(disk=True), res_ok()), (ps, res_err())]
        if l == "opt":
            return None
        r = source(*[c.arg(i) for i in range(1, len(c.args))])
        if r is None:
            return None
        ctx.ob("entries:order", ps.disk and r >= ps.at, w, "older changes are applied over newer ones")
        live = ps.live
        ctx.ob("entries:%s" % n, live is None or live == (n == "insert"), w, "a key that was %s is %s" % ("set" if live else "removed", "listed" if n == "insert" else "not listed"))
        return [(ps.set(at=r, rm=ps.rm | ({r} if n == "remove" else set()), ins=ps.ins | ({r} if n == "insert" else set())), {})]

    def branch(ps, st, o, src, val, ex):
        if src is not None and val is not None:
            ty = c07.place_ty(st.fr.body, src)
            ty = ty.peel() if ty is not None else None
            if ty is not None and ty.s == "core::option::Option<%sEntry>" % K:
                return ps.set(live=bool(val))
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("entries:read", ps.disk is True, ctx.where(b), "the list is made without what is on disk")
            tot.append((ps.rm, ps.ins, ps.at))
    tot = []
    proto.run(ctx, TT, b, "entries", {"lock": [LOCK], "scan": ["nebari::roots::Tree::<Root, File>::scan", "nebari::roots::Tree::<Root, File>::get_range"],
                                      "put": [BM + "insert", BM + "remove"]}, step, c11.rec(("lock", "disk", "at", "rm", "ins", "live"), at=0, rm=frozenset(), ins=frozenset()),
              need=("lock", "scan", "put"), ret=ret, branch=branch, kcap=64, nonempty=True)
    for k, r in RANK.items():
        ctx.ob("entries:removed:%s" % k, any(r in t[0] for t in tot), ctx.where(b), "keys removed in %s are listed" % k)
        ctx.ob("entries:set:%s" % k, any(r in t[1] for t in tot), ctx.where(b), "keys set in %s are not listed" % k)
    ctx.ob("entries:dirty-last", all(t[2] == 2 for t in tot), ctx.where(b), "unsaved changes are not applied on every path")


def writers(ctx, seen):
    """No other place replaces the collections of pending changes."""
    n = 0
    for b in ctx.F.bodies.values():
        if not b.path.startswith("bonsaidb_local::"):
            continue
        for bl in b.blocks:
            if bl is None:
                continue
            for p, rv, ln in bl[0]:
                for f in ("keys_being_persisted", "dirty_keys"):
                    if assigns(p, b, f, ctx.F):
                        n += 1
                        root = b.path.split("::{closure")[0]
                        ctx.ob("writers:%s" % f, root in seen and f == "keys_being_persisted", "%s:%d" % (b.file, ln), "`%s` is replaced by a function that neither stages nor saves changes" % f)
            t = bl[1]
            if t[0] == "call" and t[1][0] == "k" and short(getattr(t[1][1], "rpath", "")) in ("clear", "retain", "drain", "split_off", "append", "extract_if", "pop_first", "pop_last") and getattr(t[1][1], "rpath", "").startswith(BM) and b.path.startswith(K):
                ctx.fail("writers:cleared", "%s:%d" % (b.file, t[5]), "pending changes are dropped by `%s`" % short(t[1][1].rpath))
    ctx.floor("writers", n, 2)
