"""C14: key-value operations are atomic, act on their own key, and report what they did."""
from itertools import product
from terms import alts, short, show
from explore import res_ok, res_err
import c07
import c11
import proto

EXPLAIN = ("Executing a key-value operation is explored over compiler MIR once per command and combination of its options (check, whether the "
           "expiration is kept, whether the previous value is asked for, whether the value is deleted) and with and without changes being "
           "persisted at the moment: a complete decision table. Each look-up forks into the possible states of the key; the "
           "writes, the value written and the result returned are compared with the table's row. Arithmetic is read off the operators "
           "for each type of amount, each direction and with and without saturation.")
RULE = ("The key looked up and written is the operation's. The state of a key is what was changed last: the unsaved changes, else the changes "
        "being saved, else what is on disk. A set takes effect iff its check (if any) holds, writes its validated value with its own or the kept "
        "expiration, and reports inserted, updated or not changed, or the previous value if asked; a get writes nothing unless it deletes; "
        "a delete reports whether there was a value; increments and decrements write and return existing (or 0) plus or minus the amount in the "
        "amount's type, saturating iff asked, and fail without writing on a value that is not numeric. No failing operation writes. "
        "Every operation runs under one acquisition of the database's key-value lock. Namespace and key are joined and split at the same character.")
ASSUME = ["The B-tree map and nebari's get return what was stored under the key."]
K = "bonsaidb_local::database::keyvalue::"
KV = K + "KeyValueState::"
CORE = "bonsaidb_core::keyvalue::"
BM = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"
BE = "alloc::collections::btree::map::entry::"
EVENTS = {"map": [BM + n for n in ("get", "get_mut", "contains_key", "insert", "remove", "entry", "get_key_value", "remove_entry")],
          "ent": [BE + "Entry::<'a, K, V, A>::" + n for n in ("or_insert", "or_insert_with", "and_modify", "insert_entry", "or_default")]
          + [BE + "OccupiedEntry::<'a, K, V, A>::" + n for n in ("insert", "get", "get_mut", "remove", "into_mut")]
          + [BE + "VacantEntry::<'a, K, V, A>::insert"],
          "take": ["core::option::Option::<T>::take", "core::mem::take", "core::mem::replace", "core::option::Option::<T>::replace"],
          "disk": ["nebari::roots::Tree::<Root, File>::get"],
          "deser": ["bincode::deserialize"],
          "opt": ["core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_deref", "core::option::Option::<T>::is_some", "core::option::Option::<T>::is_none"],
          "filter": ["core::option::Option::<T>::filter"],
          "valid": [CORE + "Value::validate", CORE + "Numeric::validate"]}
S0 = c11.rec(("d", "p", "ex", "w", "val", "x", "dh", "ph"), dh=False, ph=False, d=False, p=False)
SOME, GONE, MISS = {(): 1, (("v", 1), ("f", 0)): 1}, {(): 1, (("v", 1), ("f", 0)): 0}, {(): 0}
LIVE = {(): 1, (("v", 1), ("f", 0), ("v", 1), ("f", 0)): 1}


def fidx(F, adt, name, var=0):
    return [f[0] for f in F.adts[adt]["variants"][var][1]].index(name)


def vidx(F, adt, name):
    return [v[0] for v in F.adts[adt]["variants"]].index(name)


def roots_in(TT, t):
    """field paths below the parameter `op` that occur in a term"""
    return {show(x) for x in TT.walk(t, 1) if x.k == "fld"}


def check(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={K + "full_key"})
    bs = ctx.needs("KeyValueState::perform_kv_operation")
    if not bs:
        return
    b = bs[0]
    op = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == CORE + "KeyOperation"]
    if len(op) != 1:
        ctx.fail("operation:parameter", ctx.where(b), "the operation to execute is not a parameter")
        return
    op = op[0]
    cmd = ("f", fidx(F, CORE + "KeyOperation", "command"))
    C, ST, KC = CORE + "Command", CORE + "SetCommand", CORE + "KeyCheck"
    per = ("f", fidx(F, K + "KeyValueState", "keys_being_persisted"))
    rows = 0
    for c in [v[0] for v in F.adts[C]["variants"]]:
        ci = vidx(F, C, c)
        base = {(cmd,): ci}
        if c == "Set":
            s = (cmd, ("v", ci), ("f", 0))
            fi = {n: s + (("f", fidx(F, ST, n)),) for n in ("check", "keep_existing_expiration", "return_previous_value")}
            base[s + (("f", fidx(F, ST, "value")),)] = vidx(F, CORE + "Value", "Numeric")
            for chk, keep, prev in product((None, "OnlyIfPresent", "OnlyIfVacant"), (0, 1), (0, 1)):
                v = dict(base)
                v[fi["check"]] = 0 if chk is None else 1
                if chk is not None:
                    v[fi["check"] + (("v", 1), ("f", 0))] = vidx(F, KC, chk)
                v[fi["keep_existing_expiration"]] = keep
                v[fi["return_previous_value"]] = prev
                for p in (0, 1):
                    one(ctx, TT, b, op, v, p, per, c, chk=chk, keep=keep, prev=prev)
                    rows += 1
        elif c == "Get":
            d = (cmd, ("v", ci), ("f", fidx(F, C, "delete", ci)))
            for x, p in product((0, 1), (0, 1)):
                one(ctx, TT, b, op, dict(base, **{}) | {d: x}, p, per, c, delete=x)
                rows += 1
        else:
            for p in (0, 1):
                one(ctx, TT, b, op, base, p, per, c)
                rows += 1
    ctx.floor("rows", rows, 34)
    lock(ctx, TT)
    keys(ctx)
    arithmetic(ctx)
    validation(ctx)


def one(ctx, TT, b, op, vals, persisting, per, cmd, chk=None, keep=0, prev=0, delete=0):
    F = ctx.F
    name = cmd.lower() + "".join([":%s" % chk if chk else "", ":keep" if keep else "", ":previous" if prev else "", ":delete" if delete else ""])
    lab = name + (":persisting" if persisting else "")
    opn = b.names.get(op, "op") if hasattr(b.names, "get") else "op"

    def own(t):
        """is a key the operation's own? None: it is another matter (keys that have expired)"""
        ns, ky = False, False
        other = None
        for x in TT.walk(TT.norm(t), 1):
            if x.k == "fld" or x.k == "par":
                s = show(x)
                if s == opn + ".namespace":
                    ns = True
                elif s == opn + ".key":
                    ky = True
                elif s.endswith("expiration_order") or s.endswith("expiring_keys"):
                    other = s
        if other and not (ns and ky):
            return None
        if not ns or not ky:
            return False
        for x in TT.walk(TT.norm(t), 1):
            if x.k == "call" and short(x.d[0]) == "full_key" and not (
                    show(TT.norm(x.d[1][0])).startswith(opn + ".namespace") and show(TT.norm(x.d[1][1])).startswith(opn + ".key")):
                return False
        return True

    def source(t):
        f = {x.d[1] for x in TT.walk(TT.norm(t), 0) if x.k == "fld"}
        return "dirty" if "dirty_keys" in f else "persist" if "keys_being_persisted" in f else None

    def written(ps, t, w):
        """an entry is stored"""
        n = TT.norm(t)
        live = not all(a.k == "agg" and a.d[1] == "None" for a in alts(n))
        if not live:
            return ps.set(w="del")
        ctx.ob("%s:validated" % name, ps.val is True, w, "a value that has not been validated is stored")
        if cmd == "Set":
            want = "kept" if keep and ps.ex else "own"
            ctx.ob("%s:expiration" % name, ps.x in (want, "?"), w, "the expiration stored is %s" % {"own": "the one given", "kept": "the existing one", None: "unknown"}.get(ps.x, ps.x))
        elif ps.ex:
            es = [TT.norm(a.d[2][0][1]) if a.k == "agg" and a.d[1] == "Some" else a for a in alts(n)]
            es = [x for e in es for x in alts(e)]
            ctx.ob("%s:expiration" % name, not all(e.k == "agg" and e.d[0] == K + "Entry" and all(a.k == "agg" and a.d[1] == "None" for a in alts(TT.norm(dict(e.d[2])["expiration"]))) for e in es),
                   w, "the expiration of an existing value is dropped")
        if cmd == "Set":
            entry(ctx, TT, n, name, w, opn, keep)
        elif cmd in ("Increment", "Decrement"):
            entry(ctx, TT, n, name, w, opn, None, cmd)
        return ps.set(w="set")

    def step(ps, l, c):
        n, w = short(c.path), c.where()
        if l == "disk":
            k = own(c.arg(1))
            if k is None:
                return None
            ctx.ob("%s:key" % lab, k, w, "the key read from disk is %s" % show(c.arg(1))[:80])
            ctx.ob("%s:latest" % lab, ps.d and (ps.p or not persisting), w, "what is on disk is used without having looked for %s" % (
                "changes that have not been saved" if not ps.d else "changes that are being saved"))
            return [(ps.set(ex=True), {(): 0, (("v", 0), ("f", 0)): 1}), (ps.set(ex=False), {(): 0, (("v", 0), ("f", 0)): 0}), (ps, res_err())]
        if l == "deser":
            if ps.ex is not True:
                return None
            return [(ps, res_ok()), (ps.set(ex=False), res_err())]
        if l == "valid":
            return [(ps.set(val=True), res_ok()), (ps, res_err())]
        if l == "filter":
            if ps.ex is None:
                return None
            return [(ps, {(): 1}), (ps.set(ex=False), {(): 0})] if ps.ex else [(ps, {(): 0})]
        s = source(c.arg(0))
        if s is None:
            return None
        if l == "opt":
            return [(ps, {(): persisting})] if s == "persist" and short(show(TT.norm(c.arg(0)))).endswith("keys_being_persisted") else None
        if l == "take":
            if s != "dirty" or not ps.d and ps.ex is None:
                return None
            if n == "replace":
                return [(written(ps, c.arg(1), w), {(): int(bool(ps.ex))})]
            return [(ps.set(w="del"), {(): int(bool(ps.ex))})]
        if l == "ent":
            if s != "dirty":
                return None
            if "keys_being_persisted" in show(TT.norm(c.arg(0))):
                return None
            vac = ps.d
            if n in ("or_insert", "insert", "insert_entry", "or_insert_with"):
                if n.startswith("or_") and not vac:
                    return [(ps, {})]
                return [(written(ps, c.arg(1), w), {(): int(bool(ps.ex))})]
            if n == "and_modify":
                if vac:
                    return [(ps, {})]
                outs = []
                for x in TT.walk(c.arg(1), 0):
                    if x.k == "clo":
                        h, cf, ops = x.x
                        cb = F.bodies[h]
                        swaps = any(bl is not None and bl[1][0] == "call" and bl[1][1][0] == "k" and getattr(bl[1][1][1], "rpath", "") == "core::mem::swap" for bl in cb.blocks)
                        if swaps:
                            for o in ops:
                                pl = target(TT, cf, o)
                                if pl is not None:
                                    ps2 = written(ps, TT.local(pl[0], pl[1][0], ()), w)
                                    return [(ps2, {}, [(pl, {(): int(bool(ps.ex))})])]
                        outs.append(cb.path)
                ctx.fail("%s:modified" % lab, w, "an entry is modified in a way that is not followed: %s" % outs)
                return None
            if n in ("get", "get_mut", "into_mut"):
                return [(ps, {(): int(bool(ps.ex))})]
            if n == "remove":
                ctx.fail("%s:forgotten" % lab, w, "the unsaved change of a key is dropped: what is on disk shows again")
            return None
        k = own(c.arg(1))
        if k is None:
            return None
        ctx.ob("%s:key" % lab, k, w, "%s(%s) instead of the operation's key" % (n, show(c.arg(1))[:80]))
        if s == "persist":
            ctx.ob("%s:latest" % lab, ps.d, w, "changes that are being saved are looked at before newer ones")
            if ps.p:
                return [(ps, {(): 0} if n == "contains_key" else MISS)]
            if n == "contains_key":
                return [(ps.set(p=True), {(): 0}), (ps.set(ph=True), {(): 1})]
            if ps.ph and ps.ex is not None:
                return [(ps, SOME if ps.ex else GONE)]
            return [(ps.set(ex=True, ph=True), SOME), (ps.set(ex=False, ph=True), GONE)] + ([(ps.set(p=True), MISS)] if not ps.ph else [])
        if n in ("get", "get_mut", "entry", "contains_key"):        # what was learned by looking before still holds
            ent = n in ("entry", "contains_key")
            if ps.w is not None:
                return [(ps, {(): 1} if ent else SOME if ps.w == "set" else GONE)]
            if ps.d:
                return [(ps, {(): 0} if ent else MISS)]
            if ps.dh and ps.ex is not None:
                return [(ps, {(): 1} if ent else SOME if ps.ex else GONE)]
            if n == "contains_key":
                return [(ps.set(dh=True), {(): 1}), (ps.set(d=True), {(): 0})]
            return [(ps.set(ex=True, dh=True), {(): 1} if ent else SOME), (ps.set(ex=False, dh=True), {(): 1} if ent else GONE)] + (
                [(ps.set(d=True), {(): 0} if ent else MISS)] if not ps.dh else [])
        if n == "insert":
            return [(written(ps, c.arg(2), w), {})]
        if n in ("remove", "remove_entry"):
            ctx.fail("%s:forgotten" % lab, w, "the unsaved change of a key is dropped: what is on disk shows again")
        return None

    OUT, STAT = CORE + "Output", CORE + "KeyStatus"
    outs = [v[0] for v in F.adts[OUT]["variants"]]
    stats = [v[0] for v in F.adts[STAT]["variants"]]

    xi = fidx(F, K + "Entry", "expiration")

    def origin(t):
        t = TT.norm(t)
        ks = set()
        for a in alts(t):
            s = show_all(TT, a)
            o, k = (opn + ".command") in s, "dirty_keys" in s or "keys_being" in s or "deserialize" in s
            if o and k:
                fs = {short(x.d[0]) for x in TT.walk(a, 0) if x.k == "call"}
                ks.add("both mixed" if fs & {"or", "or_else", "xor", "min", "max", "and", "zip"} else "?")
            else:
                ks.add("own" if o else "kept" if k else None)
        return ks.pop() if len(ks) == 1 else "?"

    def assign(ps, st, place, rv, line, ex):
        if cmd == "Set":
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == K + "Entry":
                return ps.set(x=origin(ex.term(st, rv[6][xi])))
            if rv[0] == "use" and place[-1][0] == "f" and place[-1][1] == xi and st.fr.body.locals[place[0]].peel().adt == K + "Entry" if len(place) > 1 else False:
                return ps.set(x=origin(ex.term(st, rv[1])))
        elif rv[0] == "agg" and rv[1] == "adt" and rv[2] == CORE + "Numeric" and rv[6][0][0] == "k":
            v = getattr(rv[6][0][1], "v", None)
            ctx.ob("%s:absent" % name, v is None or not float(v), "%s:%d" % (st.fr.body.file, line), "a key that does not exist counts as %s" % v)
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == OUT and rv[4] == "Value":
            t = TT.norm(ex.term(st, rv[6][0]))
            w = "%s:%d" % (st.fr.body.file, line)
            f = {x.d[1] for x in TT.walk(t, 1) if x.k == "fld"}
            s = show(t)
            if cmd in ("Increment", "Decrement"):
                ctx.ob("%s:returned" % name, ps.w == "set" or "amount" in s or "amount" in f, w, "the value returned is %s" % s[:80])
            else:
                given = [x for x in TT.walk(t, 0) if x.k == "fld" and x.d[1] == "value" and show(x).startswith(opn + ".command")]
                # the previous value may go through the variable that held the new one before they were swapped
                ok = ("dirty_keys" in f or "keys_being_persisted" in f or "deserialize" in s)
                none = ps.ex is False and t.k == "agg" and show(t).startswith("Option::None")
                ctx.ob("%s:returned" % name, ok or bool(given) or none, w, "the value returned is %s" % s[:80])
        return ps

    def ret(ps, val, st, ex):
        w = ctx.where(b)
        r = val.get(())
        if r == 1:
            ctx.ob("%s:failed" % lab, ps.w is None, w, "the operation fails although it has changed the key")
            return
        o = val.get((("v", 0), ("f", 0)))
        s = val.get((("v", 0), ("f", 0), ("v", vidx(F, OUT, "Status")), ("f", 0)))
        some = val.get((("v", 0), ("f", 0), ("v", vidx(F, OUT, "Value")), ("f", 0)))
        if r is None:
            ctx.fail("%s:outcome" % lab, w, "it cannot be told whether the operation succeeds")
            return
        o = outs[o] if o is not None else None
        s = stats[s] if s is not None else None
        there = {True: "there is a value", False: "there is no value", None: "it was not looked for a value"}[ps.ex]
        if cmd == "Set":
            do = chk is None or ps.ex is not None and (chk == "OnlyIfPresent") == ps.ex
            if chk is not None:
                ctx.ob("%s:looked" % lab, ps.ex is not None, w, "a check is not made")
            if not do:
                ctx.ob("%s:refused" % lab, ps.w is None, w, "the key is changed although its check failed")
                ctx.ob("%s:unchanged" % lab, o == "Status" and s == "NotChanged", w, "%s/%s is reported although nothing was changed" % (o, s))
                return
            ctx.ob("%s:set" % lab, ps.w == "set", w, "the operation succeeds without having stored the value (%s)" % there)
            if prev:
                ctx.ob("%s:previous" % lab, o == "Value", w, "%s is returned instead of the previous value" % o)
                ctx.ob("%s:previous-value" % lab, some is None or ps.ex is None or bool(some) == ps.ex, w, "%s is returned although %s" % ("a value" if some else "none", there))
            else:
                want = {True: "Updated", False: "Inserted"}.get(ps.ex)
                ctx.ob("%s:status" % lab, o == "Status" and s == want, w, "%s/%s is reported although %s" % (o, s, there))
        elif cmd == "Get":
            ctx.ob("%s:kept" % lab, ps.w == ("del" if delete else None) or (delete and ps.ex is False and ps.w is None), w,
                   "the key is %s" % {"del": "deleted", "set": "changed", None: "not deleted"}[ps.w])
            ctx.ob("%s:value" % lab, o == "Value" and ps.ex is not None and (some is None or bool(some) == ps.ex), w, "%s is returned although %s" % (o if some is None else "a value" if some else "none", there))
        elif cmd == "Delete":
            ctx.ob("%s:gone" % lab, ps.w == "del" or ps.ex is False and ps.w is None, w, "the key is not deleted")
            want = {True: "Deleted", False: "NotChanged"}.get(ps.ex)
            ctx.ob("%s:status" % lab, o == "Status" and s == want, w, "%s/%s is reported although %s" % (o, s, there))
        else:
            ctx.ob("%s:stored" % lab, ps.w == "set", w, "the operation succeeds without having stored the new value")
            ctx.ob("%s:looked" % lab, ps.ex is not None, w, "the existing value is not looked for")
            ctx.ob("%s:value" % lab, o == "Value" and some != 0, w, "%s is returned" % o)

    def branch(ps, st, o, src, val, ex):
        if src is not None and val is not None and show(TT.norm(ex.term(st, ("c", src)))).endswith("keys_being_persisted") and val != persisting:
            return None
        return ps

    selfs = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == K + "KeyValueState"]
    v = {op: dict(vals)}
    if selfs:
        v[selfs[0]] = {(per,): persisting}
    STOP = {"remove_expired_keys", "update_background_worker_target", "update_key_expiration", "commit_dirty_keys", "needs_commit", "stage_dirty_keys"}
    proto.run(ctx, TT, b, lab, EVENTS, step, S0, ret=ret, assign=assign, branch=branch, vals=v, kcap=64, need=("map",), quiet=("take", "filter", "deser", "opt"),
              stop=lambda x: x.path.startswith(KV) and x.path[len(KV):].split("::")[0] in STOP)


def target(TT, fr, o):
    """the place a captured `&mut x` refers to"""
    if o[0] not in ("c", "m"):
        return None
    l = o[1][0]
    for p, rv, bi in TT.defs(fr.body).get(l, ()):
        if rv[0] == "ref" and len(p) == 1:
            pl = [x for x in rv if isinstance(x, tuple) and x and isinstance(x[0], int)]
            if pl:
                return fr, pl[-1]
    return None


def entry(ctx, TT, n, name, w, opn, keep, num=None):
    """What is stored: the value of the operation, validated, with the expiration it is to have."""
    ents = [x for a in alts(n) for x in TT.walk(a, 0) if x.k == "agg" and x.d[0] == K + "Entry"]
    if num is None:
        if not ents:
            ctx.fail("%s:entry" % name, w, "what is stored is %s" % show(n)[:80])
            return
        for e in ents:
            f = dict(e.d[2])
            v = show_all(TT, f["value"])
            ctx.ob("%s:stored-value" % name, (opn + ".command") in v and "dirty_keys" not in v, w, "the value stored is %s" % show(f["value"])[:80])
            x = show_all(TT, f["expiration"])
            own = (opn + ".command") in x
            old = "dirty_keys" in x or "deserialize" in x
            ctx.ob("%s:stored-expiration" % name, own, w, "the expiration stored is %s" % show(f["expiration"])[:80])
            del old
    else:
        v = show_all(TT, n)
        ctx.ob("%s:amount" % name, "amount" in v, w, "the value stored is %s" % show(n)[:80])
        ctx.ob("%s:existing" % name, "dirty_keys" in v, w, "the value stored does not depend on the existing one: %s" % show(n)[:80])
        fn = {short(p) for x in TT.walk(n, 2) if x.k in ("call", "fn", "con") for p in [str(x.d[0])]}
        add = fn & {"saturating_add", "wrapping_add", "increment"}
        sub = fn & {"saturating_sub", "wrapping_sub", "decrement"}
        ctx.ob("%s:direction" % name, bool(add if num == "Increment" else sub) and not (sub if num == "Increment" else add), w,
               "an %s stores %s" % (num.lower(), sorted(add | sub)))


def show_all(TT, t):
    return " ".join(sorted({show(x) for x in TT.walk(TT.norm(t), 1) if x.k in ("fld", "par", "call", "con")}))


def lock(ctx, TT):
    """One acquisition of the lock per operation, and the state of that lock is what it works on."""
    bs = [b for b in ctx.F.find("Context::perform_kv_operation") if b.kind != "closure"]
    ctx.floor("entry points", len(bs), 1)
    for b in bs:
        def step(ps, l, c):
            if l == "lock":
                if "key_value_state" not in show(TT.norm(c.arg(0))):
                    return None
                ctx.ob("lock:once", ps[0] == 0, c.where(), "the lock is acquired more than once for one operation")
                return [((ps[0] + 1, ps[1]), {})]
            ctx.ob("lock:held", ps[0] == 1, c.where(), "the operation is executed without the lock")
            ctx.ob("lock:state", "key_value_state" in show(TT.norm(c.arg(0))), c.where(), "the operation works on %s" % show(c.arg(0))[:60])
            return [((ps[0], ps[1] + 1), {})]

        def ret(ps, val, st, ex):
            ctx.ob("lock:executed", ps[1] == 1, ctx.where(b), "an operation is executed %d times" % ps[1])
        proto.run(ctx, TT, b, "lock", {"lock": ["lock_api::mutex::Mutex::<R, T>::lock"], "op": [KV + "perform_kv_operation"]}, step, (0, 0), need=("lock", "op"), ret=ret,
                  stop=lambda x: x.path.startswith(KV))


def keys(ctx):
    """Joining namespace and key, and splitting them again."""
    TT = ctx.terms()
    b = ctx.need(K + "full_key")
    if b is None:
        return
    got = set()

    def step(ps, l, c):
        a = TT.norm(c.arg(1))
        if a.k == "call" and short(a.d[0]) == "unwrap_or" and a.d[1][1].k == "str" and a.d[1][1].d[0] == "":
            a = TT.norm(a.d[1][0])          # nothing for no namespace
        ds = [x.d[0] for x in TT.walk(a, 0) if x.k in ("con", "str")]
        if show(a) in ("key", "namespace") or a.k in ("par", "fld"):
            p = "ns" if any(show(x) == "namespace" for x in TT.walk(a, 0)) else "key"
        else:
            p = "sep" if [d for d in ds if d in (0, "\0", "'\\0'", "\\0")] else str(ds)
        return [(ps + (p,), {})]

    def ret(ps, val, st, ex):
        got.add(ps)
    r = proto.run(ctx, TT, b, "join", {"push": ["alloc::string::String::push", "alloc::string::String::push_str"]}, step, (), ret=ret)
    if r.n.get("push"):
        ctx.ob("join:parts", ("ns", "sep", "key") in got and got <= {("ns", "sep", "key"), ("sep", "key")}, ctx.where(b), "namespace and key are joined as %s" % sorted(got))
    b = ctx.need(K + "split_key")
    if b is None:
        return
    t = TT.norm(TT.local(TT.frame(b), 0, ()))
    sp = [x for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) in ("split_once", "find", "splitn", "split", "rsplit_once", "rfind")]
    ctx.ob("split:first", bool(sp) and all(not short(x.d[0]).startswith("r") for x in sp), ctx.where(b), "a stored key is split by %s" % [show(x)[:60] for x in sp])

    def step2(ps, l, c):
        if "each" in show(TT.norm(c.arg(0))):
            return None
        return [("empty", {(): 1}), ("named", {(): 0})]

    def ret2(ps, val, st, ex):
        if val.get(()) == 1:
            ns = val.get((("v", 1), ("f", 0), ("f", 0)))
            ctx.ob("split:namespace", ps == "?" or ns == (1 if ps == "named" else 0), ctx.where(b), "the namespace of a stored key is lost")
    proto.run(ctx, TT, b, "split", {"empty": ["is_empty"]}, step2, "?", ret=ret2, kcap=32)
    for a in alts(t):
        if a.k == "agg" and a.d[1] == "Some":
            p = TT.norm(a.d[2][0][1])
            if p.k == "agg" and len(p.d[2]) == 2:
                n, k = (show(TT.norm(x[1])) for x in p.d[2])
                ctx.ob("split:key", ".1" in k and ".0" not in k.replace("0.1", ".1").replace("Some.0", ""), ctx.where(b), "the key of a stored key is %s" % k[:60])


def arithmetic(ctx):
    F = ctx.F
    N = CORE + "Numeric"
    TT = ctx.terms(opaque={N + "::as_i64_lossy", N + "::as_u64_lossy", N + "::as_f64_lossy"})
    vs = [v[0] for v in F.adts[N]["variants"]]
    CONV = {"Integer": "as_i64_lossy", "UnsignedInteger": "as_u64_lossy", "Float": "as_f64_lossy"}
    n = 0
    for f, sign in (("increment", "add"), ("decrement", "sub")):
        b = F.body(K + f)
        if b is None:
            ctx.fail("anchor:%s" % f, "", "the function this rule is anchored in does not exist")
            continue
        nums = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == N]
        sats = [i for i in range(1, b.argc + 1) if b.locals[i].s == "bool"]
        if len(nums) != 2 or len(sats) != 1:
            ctx.fail("%s:parameters" % f, ctx.where(b), "unexpected parameters")
            continue
        for (i, v), sat in product(enumerate(vs), (0, 1)):
            n += 1
            name = "%s:%s:%s" % (f, v, "saturating" if sat else "wrapping")

            def step(ps, l, c):
                nm = short(c.path)
                if l == "conv":
                    if show(TT.norm(c.arg(0))) != b.names.get(nums[0], "existing"):
                        return None
                    ctx.ob(name + ":existing", nm == CONV[v], c.where(), "the existing value is taken %s" % nm)
                    if nm != "as_f64_lossy":
                        ctx.ob(name + ":conversion", show(TT.norm(c.arg(1))) == b.names.get(sats[0], "saturating"), c.where(), "the conversion is %s" % show(c.arg(1))[:40])
                    return [(ps, {})]
                want = "%s_%s" % ("saturating" if sat else "wrapping", sign)
                ctx.ob(name + ":operator", v != "Float" and nm == want, c.where(), "%s is computed by %s" % (name, nm))
                l0, r0 = show(TT.norm(c.arg(0))), show(TT.norm(c.arg(1)))
                ctx.ob(name + ":operands", "lossy(" + b.names.get(nums[0], "existing") in l0.replace("&", "") and r0.startswith(b.names.get(nums[1], "amount")), c.where(), "the operands are %s and %s" % (l0[:40], r0[:40]))
                return [(nm, {})]

            def assign(ps, st, place, rv, line, ex):
                if rv[0] == "bin" and st.fr.body is b:
                    o = str(rv[1])
                    ty = b.locals[place[0]].s
                    if ty == "f64":
                        ctx.ob(name + ":operator", v == "Float" and o.lower().startswith(sign), "%s:%d" % (b.file, line), "%s is computed by %s" % (name, o))
                        l0, r0 = show(TT.norm(ex.term(st, rv[2]))), show(TT.norm(ex.term(st, rv[3])))
                        ctx.ob(name + ":operands", "lossy(" + b.names.get(nums[0], "existing") in l0.replace("&", "") and r0.startswith(b.names.get(nums[1], "amount")), "%s:%d" % (b.file, line), "the operands are %s and %s" % (l0[:40], r0[:40]))
                        return o
                return ps

            def ret(ps, val, st, ex):
                ctx.ob(name + ":type", val.get(()) == i, ctx.where(b), "the result is of type %s" % (vs[val[()]] if () in val else "?"))
                ctx.ob(name + ":computed", ps != "", ctx.where(b), "nothing is computed")
            proto.run(ctx, TT, b, name, {"conv": ["as_i64_lossy", "as_u64_lossy", "as_f64_lossy"],
                                         "op": [p + "_" + s for p in ("saturating", "wrapping", "checked", "overflowing") for s in ("add", "sub")]},
                      step, "", ret=ret, assign=assign, vals={nums[1]: {(): i}, sats[0]: {(): sat}}, stop=lambda x: x.path.startswith(CORE))
    ctx.floor("arithmetic rows", n, 12)
    # the conversions keep what is of the type already, and clamp to the right end
    TT = ctx.terms()
    for v, f in CONV.items():
        b = ctx.need(N + "::" + f)
        if b is None:
            continue
        for (i, src), sat in product(enumerate(vs), (0, 1)):
            name = "%s:%s%s" % (f, src, ":saturating" if sat else "")

            def step(ps, l, c):
                ctx.ob(name + ":clamp", sat == 1 and src != v, c.where(), "the conversion of a value clamps it although %s" % ("it is of that type" if src == v else "it is to wrap"))
                k = [x.d[0] for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "con"]
                want = {"as_i64_lossy": (2 ** 63 - 1, "core::num::<impl i64>::MAX", "i64::MAX"), "as_u64_lossy": (0, "core::num::<impl u64>::MIN")}.get(f, ())
                ctx.ob(name + ":bound", any(str(x) in [str(y) for y in want] or str(x).endswith("::MAX") and f == "as_i64_lossy" for x in k), c.where(), "the value is clamped to %s" % k)
                return None

            def assign(ps, st, place, rv, line, ex):
                if st.fr.body is b and place == (0,) and rv[0] in ("use", "cast", "bin", "un"):
                    t = show(TT.norm(ex.term(st, rv[1]))) if rv[0] in ("use", "cast") else rv[1]
                    ctx.ob(name + ":source", src != v or t == "self.%s.0" % v, "%s:%d" % (b.file, line), "%s of a value of that type is %s" % (f, t[:60]))
                return ps
            vals = {1: {(): i}}
            if b.argc == 2:
                vals[2] = {(): sat}
            proto.run(ctx, TT, b, name, {"unwrap": ["unwrap_or"]}, step, "", assign=assign, vals=vals)


def validation(ctx):
    """Not-a-number values are refused."""
    TT = ctx.terms()
    F = ctx.F
    b = ctx.need(CORE + "Numeric::validate")
    if b is None:
        return
    for i, v in enumerate(x[0] for x in F.adts[CORE + "Numeric"]["variants"]):
        def step(ps, l, c):
            return [("nan", {(): 1}), ("num", {(): 0})]

        def ret(ps, val, st, ex, v=v):
            want = 1 if ps == "nan" else 0
            ctx.ob("nan:%s" % v, val.get(()) == want and (v != "Float" or ps != "?"), ctx.where(b), "a value that is %s is %s" % (
                {"nan": "not a number", "num": "a number", "?": "not tested"}[ps], "refused" if val.get(()) else "accepted"))
        proto.run(ctx, TT, b, "nan:%s" % v, {"nan": ["is_nan"]}, step, "?", ret=ret, vals={1: {(): i}})
