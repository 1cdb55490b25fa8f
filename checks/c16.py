"""C16: key-value entries expire: never returned once their time has passed, never earlier."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import proto
from c14 import K, KV, BM, BE, CORE, fidx, vidx, show_all

EXPLAIN = ("Explored over compiler MIR: what reading an entry from disk makes of its expiration, for each outcome of comparing it with the clock; for each "
           "command, which expiration is scheduled for which key, compared with the entry stored; the two operations on the schedule "
           "(ordered list and map) as a loop automaton over the comparisons made; the removal of what is due; the time the worker is woken at; "
           "and the task that reads the schedule when a database is opened.")
RULE = ("An entry read from disk is handed out iff its expiration is absent or later than now. Keys that are due are deleted before an operation looks at any key; "
        "the front of the schedule is removed only if it is due, until it is not. A successful operation that stores or deletes a value leaves the schedule with exactly that "
        "value's expiration for that key, and no operation that stores nothing changes it. A scheduled key is listed once, before the first that expires later. "
        "The worker is woken at the earlier of the first expiration and the next save. Opening a database loads every stored expiration, unless the key was changed meanwhile.")
ASSUME = ["The clock is the system's; ordering of timestamps is their derived order."]
TS = "bonsaidb_core::keyvalue::timestamp::Timestamp"
VD = "alloc::collections::vec_deque::VecDeque::<T, A>::"
CMP = ["core::cmp::PartialOrd::" + n for n in ("gt", "ge", "lt", "le", "partial_cmp")] + ["core::cmp::Ord::" + n for n in ("cmp", "max", "min")]
CMPX = {"gt": (">",), "ge": (">", "="), "lt": ("<",), "le": ("<", "=")}
LOOK = [BM + n for n in ("get", "get_mut", "contains_key", "entry", "insert", "remove", "first_key_value", "get_key_value")]


def outcomes(c, known=None):
    """[(relation of the first to the second operand, value)] of a comparison"""
    n = short(c.fn.path)
    rels = [known] if known else ["<", "=", ">"]
    if n in CMPX:
        return [(r, {(): int(r in CMPX[n])}) for r in rels]
    if n == "cmp":
        return [(r, {(): {"<": -1, "=": 0, ">": 1}[r]}) for r in rels]
    if n == "partial_cmp":
        return [(r, {(): 1, (("v", 1), ("f", 0)): {"<": -1, "=": 0, ">": 1}[r]}) for r in rels]
    return None


def flip(r):
    return {"<": ">", ">": "<", "=": "="}[r]


def is_ts(c):
    return any(t.peel().adt == TS or (t.peel().a and t.peel().a[0].peel().adt == TS) for t in c.fn.args[:1])


def has(TT, t, name):
    return any(x.k == "call" and short(x.d[0]) == name for x in TT.walk(TT.norm(t), 0))


def flds(TT, t, depth=0):
    return {x.d[1] for x in TT.walk(TT.norm(t), depth) if x.k == "fld"}


def deep(TT, t, n=3):
    """sub-terms, and what the closures among them return"""
    st, seen = [(TT.norm(t), n)], set()
    while st:
        t, k = st.pop()
        for x in TT.walk(t, 1):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.k == "clo" and k > 0:
                h, cf, ops = x.x
                b = TT.F.bodies.get(h)
                if b is not None:
                    st.append((TT.norm(TT.local(TT.frame(b, cf, None, tuple((cf, o) for o in ops)), 0, ())), k - 1))


def check(ctx):
    disk(ctx)
    schedule(ctx)
    due(ctx)
    index(ctx)
    wake(ctx)
    loader(ctx)


# ---- what is read from disk -------------------------------------------------------------------------
def disk(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={K + "full_key"})
    bs = [b for b in ctx.needs("KeyValueState::perform_kv_operation") if b.path.startswith(KV)]
    if not bs:
        return
    b = bs[0]
    op = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == CORE + "KeyOperation"][0]
    ci_ = ("f", fidx(F, CORE + "KeyOperation", "command"))
    per = ("f", fidx(F, K + "KeyValueState", "keys_being_persisted"))
    selfs = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == K + "KeyValueState"]
    C, ST, OUT, STAT = CORE + "Command", CORE + "SetCommand", CORE + "Output", CORE + "KeyStatus"
    outs = [v[0] for v in F.adts[OUT]["variants"]]
    stats = [v[0] for v in F.adts[STAT]["variants"]]
    xi = ("f", fidx(F, K + "Entry", "expiration"))
    n = 0
    for cmd, opt in (("Get", 0), ("Get", 1), ("Delete", 0), ("Set", 0), ("Set", "prev"), ("Set", "OnlyIfVacant"), ("Set", "OnlyIfPresent")):
        ci = vidx(F, C, cmd)
        v = {(ci_,): ci}
        if cmd == "Get":
            v[(ci_, ("v", ci), ("f", fidx(F, C, "delete", ci)))] = opt
        if cmd == "Set":
            s = (ci_, ("v", ci), ("f", 0))
            fs = {k: s + (("f", fidx(F, ST, k)),) for k in ("check", "keep_existing_expiration", "return_previous_value", "value")}
            v[fs["value"]] = vidx(F, CORE + "Value", "Bytes")
            v[fs["keep_existing_expiration"]] = 0
            v[fs["return_previous_value"]] = int(opt == "prev")
            v[fs["check"]] = int(opt in ("OnlyIfVacant", "OnlyIfPresent"))
            if v[fs["check"]]:
                v[fs["check"] + (("v", 1), ("f", 0))] = vidx(F, CORE + "KeyCheck", opt)
        lab = "disk:%s" % (cmd.lower() + (":%s" % opt if opt else ""))
        hits = [0]

        def step(ps, l, c):
            w = c.where()
            if l == "disk":
                hits[0] += 1
                return [(ps.set(found=True), res_ok({(): 1})), (ps.set(found=False), res_ok({(): 0})), (ps, res_err())]
            if l == "deser":
                ok = (("v", 0), ("f", 0))
                return [(ps.set(exp=True), {(): 0, ok + (xi,): 1}), (ps.set(exp=False), {(): 0, ok + (xi,): 0}), (ps.set(found=None), res_err())]
            if l == "map":
                s = flds(TT, c.arg(0))
                if "dirty_keys" not in s and "keys_being_persisted" not in s:
                    return None
                nm = short(c.path)
                return [(ps, {(): 0} if nm != "insert" else {})]
            if l == "ent":
                return [(ps, {})]
            if l == "cmp":
                if not is_ts(c):
                    return None
                now = [has(TT, c.arg(i), "now") for i in (0, 1)]
                if now[0] == now[1]:
                    ctx.fail("%s:compared" % lab, w, "an expiration is compared as %s, %s" % (show(c.arg(0))[:50], show(c.arg(1))[:50]))
                    return None
                oth = c.arg(0 if now[1] else 1)
                ctx.ob("%s:compared" % lab, ps.exp is True and "expiration" in flds(TT, oth) or ps.exp is None, w, "%s is compared with the time" % show(oth)[:60])
                rel = (ps.rel or None)
                os = outcomes(c, (rel if now[1] else flip(rel)) if rel else None)
                return os and [(ps.set(rel=r if now[1] else flip(r)), x) for r, x in os]
            return None

        def ret(ps, val, st, ex):
            w = ctx.where(b)
            if val.get(()) != 0:
                return
            o = val.get((("v", 0), ("f", 0)))
            s = val.get((("v", 0), ("f", 0), ("v", o), ("f", 0))) if o is not None else None
            o = outs[o] if o is not None else None
            if o == "Value":
                there = s
            elif o == "Status" and s is not None:
                x = stats[s]
                there = {"Updated": 1, "Inserted": 0, "Deleted": 1, "NotChanged": {"Delete": 0}.get(cmd, {"OnlyIfVacant": 1, "OnlyIfPresent": 0}.get(opt))}.get(x)
            else:
                there = None
            if there is None:
                ctx.fail("%s:result" % lab, w, "the result of the operation is not known (%s)" % o)
                return
            if ps.found is None:
                return
            live = ps.found and (ps.exp is False or ps.rel == ">")
            if ps.exp and ps.rel is None:
                live = None
            ctx.ob("%s:expired" % lab, not there or live is True, w, "an entry found on disk counts as present although %s" % (
                "there is none" if not ps.found else "its expiration was not compared with the time" if live is None else "its expiration has passed (expiration %s now)" % ps.rel))
            ctx.ob("%s:alive" % lab, there or live is not True, w, "an entry found on disk that has not expired counts as absent")
        r = proto.run(ctx, TT, b, lab, {"disk": ["nebari::roots::Tree::<Root, File>::get"], "deser": ["bincode::deserialize"], "map": LOOK, "cmp": CMP,
                                        "ent": [BE + "Entry::<'a, K, V, A>::" + x for x in ("or_insert", "and_modify")]},
                      step, c11.rec(("found", "exp", "rel"), found=None, exp=None, rel=None), ret=ret, need=("disk", "cmp"), vals={op: v, selfs[0]: {(per,): 0}}, kcap=64,
                      quiet=("cmp", "deser"), stop=lambda x: x.path.startswith(KV) and x.path[len(KV):].split("::")[0] in (
                          "remove_expired_keys", "update_background_worker_target", "update_key_expiration", "commit_dirty_keys", "needs_commit", "stage_dirty_keys"))
        n += r.n.get("disk", 0)
    ctx.floor("reads from disk", n, 7)


# ---- what is scheduled ------------------------------------------------------------------------------
def schedule(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={K + "full_key"})
    b = [x for x in F.find("KeyValueState::perform_kv_operation") if x.path.startswith(KV)]
    if not b:
        return
    b = b[0]
    op = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == CORE + "KeyOperation"][0]
    opn = b.names.get(op, "op")
    ci_ = ("f", fidx(F, CORE + "KeyOperation", "command"))
    per = ("f", fidx(F, K + "KeyValueState", "keys_being_persisted"))
    selfs = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == K + "KeyValueState"]
    C, ST = CORE + "Command", CORE + "SetCommand"
    xi = fidx(F, K + "Entry", "expiration")
    rows = [("Get", 0), ("Get", 1), ("Delete", 0), ("Increment", 0), ("Decrement", 0)] + [("Set", (chk, keep, prev)) for chk in (None, "OnlyIfVacant", "OnlyIfPresent")
                                                                                        for keep in (0, 1) for prev in (0, 1)]
    ups = 0
    for cmd, opt in rows:
        ci = vidx(F, C, cmd)
        v = {(ci_,): ci}
        keep = 0
        lab = "schedule:" + cmd.lower()
        if cmd == "Get":
            v[(ci_, ("v", ci), ("f", fidx(F, C, "delete", ci)))] = opt
            lab += ":delete" if opt else ""
        if cmd == "Set":
            chk, keep, prev = opt
            s = (ci_, ("v", ci), ("f", 0))
            fs = {k: s + (("f", fidx(F, ST, k)),) for k in ("check", "keep_existing_expiration", "return_previous_value", "value")}
            v[fs["value"]] = vidx(F, CORE + "Value", "Bytes")
            v[fs["keep_existing_expiration"]] = keep
            v[fs["return_previous_value"]] = prev
            v[fs["check"]] = int(chk is not None)
            if chk:
                v[fs["check"] + (("v", 1), ("f", 0))] = vidx(F, CORE + "KeyCheck", chk)
            lab += ":%s%s%s" % (chk or "always", ":keep" if keep else "", ":previous" if prev else "")

        def own(t):
            t = TT.norm(t)
            ns = ky = False
            for x in TT.walk(t, 1):
                if x.k in ("fld", "par"):
                    s = show(x)
                    ns |= s == opn + ".namespace"
                    ky |= s == opn + ".key"
            return ns and ky

        def origin(t):
            ks = set()
            for a in alts(TT.norm(t)):
                if a.k == "agg" and a.d[1] == "None":
                    ks.add("none")
                    continue
                s = show_all(TT, a)
                fs_ = {short(x.d[0]) for x in TT.walk(a, 0) if x.k == "call"}
                o, k = (opn + ".command") in s, "dirty_keys" in s or "keys_being" in s or "deserialize" in s
                if o and k:
                    ks.add("mixed" if fs_ & {"or", "or_else", "xor", "min", "max", "and", "zip"} else "?")
                else:
                    ks.add("own" if o else "kept" if k else "?")
            return ks.pop() if len(ks) == 1 else "|".join(sorted(ks))

        def step(ps, l, c):
            w = c.where()
            nm = short(c.path)
            if l == "upd":
                ctx.ob("%s:key" % lab, own(c.arg(1)), w, "the expiration of %s is changed" % show(c.arg(1))[:60])
                v0 = c.ex.opval(c.st.env, c.fr, c.args[2]).get(())
                o = origin(c.arg(2))
                if cmd == "Set":        # what the field read held when it was read
                    a = c.args[2]
                    if a[0] in ("c", "m"):
                        now = ps.x if field_of(c.fr, a[1]) else dict(ps.sn).get((c.fr.id, a[1]))
                        o = now or o
                if v0 == 0:
                    o = "none"
                return [(ps.set(u=o, un=True, uw=w), {})]
            if l == "rem":
                ctx.ob("due-first", ps.look is False, w, "keys are looked at before those that have expired are removed")
                ctx.ob("due-now", has(TT, c.arg(1), "now") or c.arg(1) is None, w, "keys are removed as of %s" % show(c.arg(1))[:40])
                return [(ps.set(rem=True), {})]
            if l == "valid":
                return None
            if l == "disk":
                ctx.ob("due-removed", ps.rem, w, "a key is looked up without having removed what has expired")
                return [(ps.set(ex=1), res_ok({(): 1})), (ps.set(ex=0), res_ok({(): 0})), (ps, res_err())]
            if l == "deser":
                return [(ps, res_ok())]
            if l == "filter":
                return [(ps, {(): 1}), (ps.set(ex=0), {(): 0})] if ps.ex == 1 else [(ps, {(): 0})] if ps.ex == 0 else None
            if l == "cmp":        # an entry found on disk that is refused is as good as absent
                if not is_ts(c) or "deserialize" not in show_all(TT, c.arg(0)) + show_all(TT, c.arg(1)):
                    return None
                os = outcomes(c)
                return os and [(ps.set(ex=0) if (r == ">") == has(TT, c.arg(0), "now") else ps, x) for r, x in os if r != "="]
            if l == "ent":
                s = flds(TT, c.arg(0))
                if nm in ("or_insert", "or_insert_with", "insert"):
                    return [(ps.set(w="set"), {})]
                if nm == "and_modify":
                    return [(ps.set(w="set"), {})]
                return [(ps, {})]
            if l == "take":
                if "dirty_keys" not in flds(TT, c.arg(0)):
                    return None
                return [(ps.set(w="del"), {(): int(ps.ex == 1)})]
            s = flds(TT, c.arg(0))
            if "dirty_keys" not in s and "keys_being_persisted" not in s:
                return None
            if "expiration_order" in flds(TT, c.arg(1)):
                return None
            ctx.ob("due-removed", ps.rem, w, "a key is looked up without having removed what has expired")
            ps = ps.set(look=True)
            if "keys_being_persisted" in s:
                return [(ps, {(): 0})]
            if nm == "insert":
                gone = all(a.k == "agg" and a.d[1] == "None" for a in alts(TT.norm(c.arg(2))))
                return [(ps.set(w="del" if gone else "set"), {})]
            if nm == "contains_key":
                return [(ps, {(): 0})]
            if nm == "entry":
                return [(ps.set(ex=1), {(): 1}), (ps, {(): 0})]
            if ps.ex is not None or ps.w:
                return [(ps, {(): 0})]
            return [(ps.set(ex=1), {(): 1, (("v", 1), ("f", 0)): 1}), (ps.set(ex=0), {(): 1, (("v", 1), ("f", 0)): 0}), (ps, {(): 0})]

        def assign(ps, st, place, rv, line, ex):
            if rv[0] == "agg" and rv[1] == "adt" and rv[2] == K + "Entry":
                return ps.set(x=origin(ex.term(st, rv[6][xi])))
            if rv[0] == "use" and len(place) > 1 and place[-1][0] == "f" and place[-1][1] == xi and st.fr.body.locals[place[0]].peel().adt == K + "Entry":
                return ps.set(x=origin(ex.term(st, rv[1])))
            if rv[0] == "use" and rv[1][0] in ("c", "m") and len(place) == 1 and cmd == "Set":
                src = rv[1][1]
                v = ps.x if field_of(st.fr, src) else dict(ps.sn).get((st.fr.id, src))
                if v is not None:
                    return ps.set(sn=ps.sn | {((st.fr.id, place), v)})
            return ps

        def field_of(fr, pl):
            return len(pl) > 1 and pl[-1][0] == "f" and pl[-1][1] == xi and fr.body.locals[pl[0]].peel().adt == K + "Entry" and all(e[0] in ("*", "f") for e in pl[1:]) and sum(e[0] == "f" for e in pl[1:]) == 1

        def ret(ps, val, st, ex):
            w = ps.uw or ctx.where(b)
            if val.get(()) == 1:
                ctx.ob("%s:failed" % lab, not ps.un, w, "the operation fails although it has changed the expiration of its key")
                return
            if ps.w is None:
                ctx.ob("%s:unchanged" % lab, not ps.un or cmd in ("Delete", "Get") and ps.ex == 0 and ps.u == "none", w, "the expiration of the key is changed, but not its value")
                return
            if not ps.un:
                # nothing to do if the stored entry is the existing one with its expiration
                ctx.ob("%s:scheduled" % lab, cmd in ("Increment", "Decrement") and ps.ex == 1, w, "the value is %s, and its expiration stays scheduled as it was" % {"set": "stored", "del": "deleted"}[ps.w])
                return
            if ps.w == "del":
                ctx.ob("%s:cancelled" % lab, ps.u == "none", w, "a deleted key is scheduled to expire")
                return
            if cmd == "Set":
                want = "kept" if keep and ps.ex == 1 else "own"
                got = ps.u
                ctx.ob("%s:as-stored" % lab, got == want or want in got.split("|") + (["own", "kept"] if got == "?" else []), w, "the expiration scheduled is %s instead of %s" % (got, want))
            else:
                ctx.ob("%s:as-stored" % lab, ps.ex != 1 or "kept" in ps.u.split("|") or ps.u == "?", w, "the expiration scheduled is %s" % ps.u)

        S0 = c11.rec(("u", "un", "uw", "w", "ex", "rem", "look", "x", "sn"), sn=frozenset(), u=None, un=False, uw=None, w=None, ex=None, rem=False, look=False, x=None)
        r = proto.run(ctx, TT, b, lab, {"disk": ["nebari::roots::Tree::<Root, File>::get"], "deser": ["bincode::deserialize"], "map": LOOK,
                                        "ent": [BE + "Entry::<'a, K, V, A>::" + x for x in ("or_insert", "or_insert_with", "and_modify", "insert_entry")],
                                        "take": ["core::option::Option::<T>::take", "core::mem::take", "core::mem::replace", "core::option::Option::<T>::replace"],
                                        "cmp": CMP, "filter": ["core::option::Option::<T>::filter"],
                                        "upd": [KV + "update_key_expiration"], "rem": [KV + "remove_expired_keys"]},
                      step, S0, ret=ret, assign=assign, need=("map", "rem"), vals={op: v, selfs[0]: {(per,): 0}}, kcap=64, quiet=("deser", "take", "cmp", "filter"),
                      stop=lambda x: x.path.startswith(KV) and x.path[len(KV):].split("::")[0] in (
                          "update_background_worker_target", "commit_dirty_keys", "needs_commit", "stage_dirty_keys"))
        ups += r.n.get("upd", 0)
    ctx.floor("expirations scheduled", ups, 20)


# ---- removing what is due ---------------------------------------------------------------------------
def due(ctx):
    TT = ctx.terms()
    b = ctx.need(KV + "remove_expired_keys")
    if b is None:
        return

    def step(ps, l, c):
        w, nm = c.where(), short(c.path)
        f = flds(TT, c.arg(0))
        if l == "dq":
            if "expiration_order" not in f:
                return None
            if nm == "is_empty":
                return [(ps, {(): 1})] if ps.front == "empty" else [(ps, {(): 0})] if ps.front in ("due", "later", "some") else [
                    (ps.set(front="empty"), {(): 1}), (ps.set(front="some"), {(): 0})]
            if nm in ("front", "get", "pop_front", "remove"):
                pop = nm in ("pop_front", "remove")
                if pop:
                    ctx.ob("due:only", ps.front == "due", w, "the first key of the schedule is removed although %s" % {"later": "its expiration has not passed", "?": "it was not looked at", "empty": "there is none", "some": "its expiration was not looked at"}.get(ps.front, ps.front))
                    ctx.ob("due:finished", ps.pend == 0, w, "the next key is removed before the previous one was deleted")
                    return [(ps.set(front="?", pend=3), {(): 1})]
                return [(ps, {(): 0})] if ps.front == "empty" else [(ps, {(): 1})] if ps.front in ("due", "later", "some") else [
                    (ps.set(front="empty"), {(): 0}), (ps.set(front="some"), {(): 1})]
            if nm == "index":
                z = [x.d[0] for x in TT.walk(TT.norm(c.arg(1)), 0) if x.k == "con"]
                ctx.ob("due:first", z == [0], w, "element %s of the schedule is looked at instead of the first" % z)
                return [(ps.set(front="some" if ps.front == "?" else ps.front), {})]
            ctx.fail("due:schedule", w, "the schedule is changed by %s" % nm)
            return None
        if l == "cmp":
            if not is_ts(c):
                return None
            sides = ["expiring_keys" in flds(TT, c.arg(i)) for i in (0, 1)]
            if sides[0] == sides[1]:
                return None
            oth = TT.norm(c.arg(1 if sides[0] else 0))
            ctx.ob("due:now", show(oth).replace("&", "") == b.names.get(2, "now") or has(TT, oth, "now"), w, "expirations are compared with %s" % show(oth)[:40])
            os = outcomes(c)
            if not os:
                return None
            out = []
            for r, x in os:
                r = r if sides[0] else flip(r)
                new = "later" if r == ">" else "due"
                if r == "=":
                    continue
                out.append((ps.set(front=new), x))
            return out
        if l == "map":
            k = TT.norm(c.arg(1))
            if "expiring_keys" in f and nm == "remove":
                ctx.ob("due:forgotten", ps.pend & 1 and has_pop(TT, k), w, "the expiration of %s is forgotten" % show(k)[:50])
                return [(ps.set(pend=ps.pend & ~1), {(): 1})]
            if "dirty_keys" in f and nm == "insert":
                ctx.ob("due:deleted", ps.pend & 2 and has_pop(TT, k), w, "%s is changed" % show(k)[:50])
                ctx.ob("due:gone", all(a.k == "agg" and a.d[1] == "None" for a in alts(TT.norm(c.arg(2)))), w, "a key that has expired is not deleted")
                return [(ps.set(pend=ps.pend & ~2), {})]
            if "expiring_keys" in f and nm in ("get", "contains_key"):
                return [(ps, {(): 1})]
            if nm in ("insert", "remove", "entry"):
                ctx.fail("due:other", w, "%s of %s" % (nm, sorted(f)))
            return None

    def ret(ps, val, st, ex):
        ctx.ob("due:finished", ps.pend == 0, ctx.where(b), "a key removed from the schedule is not deleted")
        ctx.ob("due:all", ps.front in ("empty", "later"), ctx.where(b), "keys that have expired may remain: the first of the schedule %s" % ("is due" if ps.front == "due" else "was not looked at again"))
    proto.run(ctx, TT, b, "due", {"dq": [VD + n for n in ("is_empty", "front", "get", "pop_front", "remove", "pop_back", "push_back", "insert", "clear", "retain", "drain")] + ["core::ops::index::Index::index", "<%s as core::ops::index::Index<usize>>::index" % VD[:-2],
                                         "<alloc::collections::vec_deque::VecDeque<T, A> as core::ops::index::Index<usize>>::index"],
                                  "cmp": CMP, "map": LOOK}, step, c11.rec(("front", "pend"), front="?", pend=0), ret=ret, need=("dq", "cmp", "map"))


def has_pop(TT, t):
    return any(x.k == "call" and short(x.d[0]) in ("pop_front", "remove", "front", "index", "get") for x in TT.walk(TT.norm(t), 0)) and "expiration_order" in flds(TT, t, 1)


# ---- the schedule: an ordered list and a map ---------------------------------------------------------
def index(ctx):
    F = ctx.F
    TT = ctx.terms()
    b = ctx.need(KV + "update_key_expiration")
    if b is None:
        return
    kp = [i for i in range(1, b.argc + 1) if i > 1 and b.locals[i].peel().adt != "core::option::Option"]
    ep = [i for i in range(1, b.argc + 1) if b.locals[i].adt == "core::option::Option"]
    if len(kp) != 1 or len(ep) != 1:
        ctx.fail("index:parameters", ctx.where(b), "unexpected parameters")
        return
    kn, en = b.names.get(kp[0], "tree_key"), b.names.get(ep[0], "expiration")

    def mine(t):
        return any(show(x) == kn for x in TT.walk(TT.norm(t), 1) if x.k == "par")

    def given(t):
        return any(show(x).split(".")[0] == en for x in TT.walk(TT.norm(t), 1) if x.k in ("par", "fld"))

    def moved(t):
        return [x for x in deep(TT, t) if x.k == "bin" and x.d[0] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or x.k == "call" and short(x.d[0]) in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "add", "sub")]
    for some in (1, 0):
        lab = "index:%s" % ("some" if some else "none")

        def step(ps, l, c):
            w, nm = c.where(), short(c.path)
            f = flds(TT, c.arg(0), 1)
            if l == "map":
                if "expiring_keys" not in f:
                    return None
                k = c.arg(1)
                if nm in ("contains_key", "get", "get_mut", "entry") and mine(k) and "expiration_order" not in flds(TT, k, 1):
                    return [(ps.set(had=1), {(): 1}), (ps.set(had=0), {(): 0})] if ps.had is None else [(ps, {(): ps.had})]
                if nm == "get":
                    return [(ps, {(): 1})]
                if nm == "remove":
                    ctx.ob("%s:forget-own" % lab, mine(k), w, "the expiration of %s is forgotten" % show(k)[:50])
                    ctx.ob("%s:forget" % lab, not some or ps.had is not None, w, "the expiration is forgotten")
                    hads = (1, 0) if ps.had is None else (ps.had,)
                    return [(ps.set(had=h, mp="none"), {(): h}) for h in hads]
                if nm == "insert":
                    ctx.ob("%s:own" % lab, mine(k) or "expiration_order" in flds(TT, k, 1), w, "the expiration is stored for %s" % show(k)[:50])
                    ctx.ob("%s:given" % lab, some and given(c.arg(2)), w, "the expiration stored is %s" % show(c.arg(2))[:50])
                    hads = (1, 0) if ps.had is None else (ps.had,)
                    return [(ps.set(had=h, mp="new"), {(): h}) for h in hads]
                return None
            if l == "dq":
                if "expiration_order" not in f:
                    return None
                if nm in ("is_empty", "len", "iter", "front", "get", "back", "contains"):
                    return None
                if nm == "remove":
                    pos = TT.norm(c.arg(1))
                    ctx.ob("%s:removed-there" % lab, not moved(pos), w, "the key removed is not at the position found: %s" % show(pos)[:60])
                    ctx.ob("%s:removed-own" % lab, ps.eq == 1, w, "the key removed from the schedule was not compared with the given one")
                    ctx.ob("%s:removed-once" % lab, ps.rm == 0, w, "a key is removed from the schedule twice")
                    return [(ps.set(rm=1, eq=None, it=None), {(): 1})]
                if nm == "retain":
                    return [(ps.set(rm=1), {})]
                if nm in ("insert", "push_back", "push_front"):
                    el = c.arg(2 if nm == "insert" else 1)
                    ctx.ob("%s:listed-own" % lab, mine(el) or "expiration_order" in flds(TT, el, 1), w, "%s is listed" % show(el)[:50])
                    ctx.ob("%s:listed-once" % lab, ps.ins == 0, w, "the key is listed twice")
                    ctx.ob("%s:unlisted" % lab, ps.rm == 1 or ps.had == 0, w, "the key is listed again without having been removed from where it was")
                    if nm == "push_back":
                        ctx.ob("%s:order" % lab, ps.it == "end", w, "the key is listed last although %s" % ("a key that expires later was found" if ps.it == ">" else "it was not compared with all others"))
                    elif nm == "insert":
                        ctx.ob("%s:listed-there" % lab, not moved(c.arg(1)), w, "the key is not listed at the position found: %s" % show(c.arg(1))[:60])
                        ctx.ob("%s:order" % lab, ps.it == ">" , w, "the key is listed where %s" % ("the next key does not expire later" if ps.it else "no comparison was made"))
                    else:
                        ctx.fail("%s:order" % lab, w, "the key is listed first")
                    return [(ps.set(ins=1), {})]
                ctx.fail("%s:schedule" % lab, w, "the schedule is changed by %s" % nm)
                return None
            if l == "next":
                if "expiration_order" not in f:
                    return None
                if ps.it in (">",):
                    # the loop goes on although the place was found
                    ps = ps.set(it="past")
                if ps.it == "past":
                    return [(ps, {(): 1}), (ps, {(): 0})]
                return [(ps.set(it="next"), {(): 1}), (ps.set(it="end"), {(): 0})]
            if l == "eq":
                a = [mine(c.arg(i)) and "expiration_order" not in flds(TT, c.arg(i), 1) for i in (0, 1)]
                o = ["expiration_order" in flds(TT, c.arg(i), 1) for i in (0, 1)]
                if not (a[0] and o[1] or a[1] and o[0]):
                    return None
                neg = nm == "ne"
                return [(ps.set(eq=1), {(): int(not neg)}), (ps.set(eq=0), {(): int(neg)})]
            if l == "cmp":
                if not is_ts(c):
                    return None
                sides = ["expiring_keys" in flds(TT, c.arg(i), 1) for i in (0, 1)]
                if sides[0] == sides[1]:
                    return None
                oth = c.arg(1 if sides[0] else 0)
                ctx.ob("%s:compared" % lab, given(oth), w, "expirations of other keys are compared with %s" % show(oth)[:50])
                ctx.ob("%s:compared-old" % lab, ps.mp is None, w, "the comparison may see the new expiration")
                os = outcomes(c)
                if not os:
                    return None
                out = []
                for r, x in os:
                    r = r if sides[0] else flip(r)
                    if r == "=":
                        continue
                    out.append((ps.set(it=">" if r == ">" else "<"), x))
                return out
            return None

        def ret(ps, val, st, ex):
            w = ctx.where(b)
            if some:
                ctx.ob("%s:stored" % lab, ps.mp == "new", w, "the expiration is not stored")
                ctx.ob("%s:listed" % lab, ps.ins == 1, w, "the key is not listed")
            else:
                ctx.ob("%s:forgotten" % lab, ps.had == 0 or ps.mp == "none", w, "the expiration stays stored")
                ctx.ob("%s:not-listed" % lab, (ps.had == 0 or ps.rm == 1) and ps.ins == 0, w, "the key stays listed")
                ctx.ob("%s:nothing" % lab, ps.had != 0 or ps.rm == 0, w, "a key that is not scheduled is removed from the schedule")
        proto.run(ctx, TT, b, lab, {"dq": [VD + n for n in ("remove", "insert", "push_back", "push_front", "pop_front", "pop_back", "retain", "clear", "swap", "truncate", "drain", "make_contiguous")],
                                    "map": LOOK, "cmp": CMP, "eq": ["core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"], "next": [proto.ITER]},
                  step, c11.rec(("had", "mp", "rm", "ins", "it", "eq"), had=None, mp=None, rm=0, ins=0, it=None, eq=None), ret=ret, need=("dq", "map"), quiet=("next",),
                  vals={ep[0]: {(): some}}, kcap=32, stop=lambda x: x.path == KV + "update_background_worker_target")


# ---- when the worker is woken ------------------------------------------------------------------------
def wake(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={"bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit"})
    b = ctx.need(KV + "update_background_worker_target")
    if b is None:
        return
    T = K + "BackgroundWorkerProcessTarget"
    vs = [v[0] for v in F.adts[T]["variants"]]

    def kind(t):
        ks = set()
        for a in alts(TT.norm(t)):
            ts = list(deep(TT, a))
            s = {x.d[1] for x in ts if x.k == "fld"}
            fs = {short(x.d[0]) for x in ts if x.k == "call"}
            k = set()
            if "expiration_order" in s or "expiring_keys" in s:
                k.add("key")
            if "duration_until_next_commit" in fs:
                k.add("commit")
            if fs & {"min"} and len(k) == 2:
                ks.add("min")
            elif fs & {"max"}:
                ks.add("max")
            elif len(k) == 1:
                ks.add(k.pop())
            else:
                ks.add("?")
        return ks
    for persisting in (0, 1):
        lab = "wake%s" % (":saving" if persisting else "")

        def step(ps, l, c):
            w, nm = c.where(), short(c.path)
            if l == "front":
                if "expiration_order" not in flds(TT, c.arg(0)):
                    return None
                ctx.ob("%s:first" % lab, nm != "back", w, "the worker is woken for the last key of the schedule")
                return [(ps.set(key=1), {(): 1}), (ps.set(key=0), {(): 0})] if ps.key is None else [(ps, {(): ps.key})]
            if l == "due":
                ctx.ob("%s:saving" % lab, not persisting, w, "a save is scheduled while one is running")
                return [(ps.set(com=1), {(): 1}), (ps.set(com=0), {(): 0})]
            if l == "cmp":
                if not is_ts(c) or nm in ("min", "max"):
                    return None
                os = outcomes(c)
                now = [has(TT, c.arg(i), "now") and not kind(c.arg(i)) & {"key", "commit", "min"} for i in (0, 1)]
                if now[0] == now[1] or not os:
                    return None
                out = []
                for r, x in os:
                    r = r if now[1] else flip(r)
                    out.append((ps.set(late=ps.late or r in ("<", "=")), x))
                return out
            if l == "opt":
                s = TT.norm(c.arg(0))
                return [(ps, {(): persisting if nm == "is_some" else 1 - persisting})] if show(s).endswith("keys_being_persisted") else None
            t = TT.norm(c.arg(1))
            ks = [a for a in alts(t)]
            ctx.ob("%s:target" % lab, all(a.k == "agg" and a.d[0] == T for a in ks), w, "the worker is told %s" % show(t)[:60])
            for a in ks:
                if a.k != "agg":
                    continue
                v = a.d[1]
                if v == "Never":
                    ctx.ob("%s:never" % lab, ps.key == 0 and (ps.com == 0 or persisting), w, "the worker is not woken although %s is to come" % ("an expiration" if ps.key != 0 else "a save"))
                elif v == "Now":
                    ctx.ob("%s:now" % lab, ps.late, w, "the worker is woken at once")
                elif v == "Timestamp":
                    k = kind(a.d[2][0][1])
                    both = ps.key != 0 and ps.com == 1
                    want = "min" if both else "key" if ps.key else "commit"
                    ctx.ob("%s:when" % lab, want in k and not (k & {"max", "?"}), w, "the worker is woken at the time of %s instead of %s" % (sorted(k), want))
            return [(ps.set(told=1), {})]

        def ret(ps, val, st, ex):
            ctx.ob("%s:told" % lab, ps.told == 1, ctx.where(b), "the worker is not told when to wake up")
        selfs = [i for i in range(1, b.argc + 1) if b.locals[i].peel().adt == K + "KeyValueState"]
        proto.run(ctx, TT, b, lab, {"front": [VD + "front", VD + "get", VD + "back"], "due": ["bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit"],
                                    "cmp": CMP, "told": ["watchable::Watchable::<T>::" + n for n in ("update", "replace")], "opt": ["core::option::Option::<T>::is_some", "core::option::Option::<T>::is_none"]},
                  step, c11.rec(("key", "com", "late", "told"), key=None, com=None, late=False, told=0), ret=ret, need=("front", "told") + (() if persisting else ("due",)), kcap=32,
                  quiet=("cmp", "opt"), vals={selfs[0]: {(("f", fidx(F, K + "KeyValueState", "keys_being_persisted")),): persisting}},
                  stop=lambda x: x.path.startswith("bonsaidb_local::config::"))


# ---- loading the schedule ----------------------------------------------------------------------------
def loader(ctx):
    F = ctx.F
    TT = ctx.terms(opaque={K + "full_key"} | {x.path for x in F.find("all_key_value_entries")})
    # a loaded expiration is scheduled unless the entry is another one by now
    b = ctx.need(KV + "load_key_expiration")
    if b is not None:
        names = [b.names.get(i, "") for i in range(1, b.argc + 1)]
        kn, en = (names + ["", "", ""])[1:3]

        def step(ps, l, c):
            w, nm = c.where(), short(c.path)
            if l == "get":
                ctx.ob("load:looked-up", show(TT.norm(c.arg(1))).replace("&", "").split(".")[0].split("(")[-1].strip(")") == kn or kn in show(TT.norm(c.arg(1))), w, "%s is looked up" % show(c.arg(1))[:40])
                return [(ps.set(cur=1), res_ok({(): 1})), (ps.set(cur=0), res_ok({(): 0})), (ps, res_err())]
            if l == "eq":
                if not any("expiration" in flds(TT, c.arg(i), 1) or en in show(TT.norm(c.arg(i))) for i in (0, 1)):
                    return None
                s = [show(TT.norm(c.arg(i))) for i in (0, 1)]
                ctx.ob("load:same", any(en == x.replace("&", "") or en in x for x in s) and any("expiration" in flds(TT, c.arg(i), 1) for i in (0, 1)), w, "the entry is compared by %s, %s" % (s[0][:40], s[1][:40]))
                return [(ps.set(same=1), {(): int(nm == "eq")}), (ps.set(same=0), {(): int(nm == "ne")})]
            ctx.ob("load:key", kn in show_all(TT, c.arg(1)), w, "the expiration of %s is scheduled" % show(c.arg(1))[:40])
            ctx.ob("load:value", en in show_all(TT, c.arg(2)), w, "%s is scheduled" % show(c.arg(2))[:40])
            ctx.ob("load:replaced", ps.cur == 0 or ps.same == 1, w, "an expiration that was loaded is scheduled although %s" % ("the key was not looked up" if ps.cur is None else "the entry has another one by now"))
            return [(ps.set(up=1), {})]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("load:scheduled", ps.up == 1 or ps.cur == 0 or ps.same == 0, ctx.where(b), "an expiration that was loaded is not scheduled")
        proto.run(ctx, TT, b, "load", {"get": [KV + "get"], "eq": ["core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"], "up": [KV + "update_key_expiration"]}, step,
                  c11.rec(("cur", "same", "up"), cur=None, same=None, up=0), ret=ret, need=("get", "up"), quiet=("eq",), stop=lambda x: x.path in (KV + "get", KV + "update_key_expiration"))
    # the lock
    for b in [x for x in F.find("Context::load_key_expiration") if x.kind == "fn"]:
        def step(ps, l, c):
            if l == "lock":
                return [("held", {})]
            ctx.ob("load:lock", ps == "held" and "key_value_state" in show_all(TT, c.arg(0)), c.where(), "expirations are loaded without the lock")
            a = [show(TT.norm(c.arg(i))) for i in (1, 2)]
            ctx.ob("load:passed", a == [b.names.get(2, ""), b.names.get(3, "")], c.where(), "%s are passed on" % a)
            return [("done", res_ok()), ("done", res_err())]

        def ret(ps, val, st, ex):
            ctx.ob("load:done", ps == "done", ctx.where(b), "nothing is loaded")
        proto.run(ctx, TT, b, "load:context", {"lock": ["lock_api::mutex::Mutex::<R, T>::lock"], "load": [KV + "load_key_expiration"]}, step, "", ret=ret, need=("lock", "load"))
    # the task
    ex_ = [i for i in F.bodies.values() if i.path.startswith("<bonsaidb_local::database::keyvalue::ExpirationLoader as") and i.path.endswith("::execute") and i.kind == "fn"]
    if not ex_:
        ctx.fail("anchor:loader", "", "the task that loads expirations does not exist")
    for b in ex_:
        E = K + "Entry"
        xi = fidx(F, E, "expiration")

        def step(ps, l, c):
            w, nm = c.where(), short(c.path)
            if l == "all":
                ctx.ob("task:database", "database" in show_all(TT, c.arg(0)), w, "the entries of %s are listed" % show(c.arg(0))[:40])
                return [(ps.set(st="listed"), res_ok()), (ps, res_err())]
            if l == "next":
                if "all_key_value_entries" not in show(TT.norm(c.arg(0))):
                    return None
                ctx.ob("task:each", ps.st in ("listed", "loaded", "skip", "any"), w, "the next entry is taken although the expiration of the previous one was not loaded")
                it = (("v", 1), ("f", 0), ("f", 1), ("f", xi))
                return [(ps.set(st="some"), {(): 1, it: 1}), (ps.set(st="skip"), {(): 1, it: 0}), (ps.set(st="end"), {(): 0})]
            if l == "cmp":
                if not is_ts(c):
                    return None
                s = ["last_updated" in show_all(TT, c.arg(0)), "last_updated" in show_all(TT, c.arg(1))]
                if s[0] == s[1]:
                    return None
                oth = c.arg(1 if s[0] else 0)
                ctx.ob("task:since", "launched_at" in show_all(TT, oth), w, "the time of the last change is compared with %s" % show(oth)[:40])
                os = outcomes(c)
                out = []
                for r, x in os or ():
                    r = r if s[0] else flip(r)
                    out.append((ps.set(st="skip") if ps.st == "some" and r == ">" else ps.set(st="any") if r == "=" and ps.st == "some" else ps, x))
                return out
            if l == "load":
                sl = show_all(TT, c.arg(2))
                ctx.ob("task:value", "expiration" in flds(TT, c.arg(2), 1) and "all_key_value_entries" in show(TT.norm(c.arg(2))), w, "%s is loaded" % show(c.arg(2))[:60])
                k = TT.norm(c.arg(1))
                fk = [x for x in TT.walk(k, 0) if x.k == "call" and short(x.d[0]) == "full_key"]
                ok = len(fk) == 1 and all("all_key_value_entries" in show(TT.norm(a)) for a in fk[0].d[1])
                if ok:
                    p = [path(a) for a in fk[0].d[1]]
                    ok = p[0].endswith(".0.0") and p[1].endswith(".0.1")
                ctx.ob("task:key", ok, w, "the expiration of %s is loaded" % show(k)[:80])
                return [(ps.set(st="loaded"), res_ok()), (ps.set(st="error"), res_err())]
            ctx.ob("task:complete", ps.st == "end", w, "expirations count as loaded before they are (%s)" % ps.st)
            return [(ps.set(mark=1), {})]

        def path(a):
            s = show(TT.norm(a))
            s = s.replace("(as_deref", "").replace("&", "")
            while s.endswith(")"):
                s = s[:-1]
            return s

        def ret(ps, val, st, ex):
            if val.get(()) == 1:
                ctx.ob("task:failed", ps.mark == 0, ctx.where(b), "expirations count as loaded although loading failed")
            elif val.get(()) == 0:
                ctx.ob("task:all", ps.st == "end", ctx.where(b), "the task succeeds without having loaded every expiration (%s)" % ps.st)
        proto.run(ctx, TT, b, "task", {"all": [x.path for x in F.find("all_key_value_entries")] + ["all_key_value_entries"], "next": [proto.ITER], "cmp": CMP,
                                       "load": ["load_key_expiration"], "mark": ["mark_key_value_expiration_loaded"]}, step, c11.rec(("st", "mark"), st="", mark=0), ret=ret,
                  need=("all", "load", "next"), quiet=("cmp", "next"), kcap=32, stop=lambda x: short(x.path) in ("all_key_value_entries", "load_key_expiration", "mark_key_value_expiration_loaded"))
    # it is started whenever a database is opened
    TT = ctx.terms()
    spawn = [x for x in F.find("spawn_key_value_expiration_loader")]
    for b in [x for x in F.find("Database::new", "bonsaidb_local") if x.kind == "fn" and not x.path.startswith("<")]:
        def step(ps, l, c):
            return [(True, {})]

        def ret(ps, val, st, ex):
            ctx.ob("open:loads", val.get(()) != 0 or ps, ctx.where(b), "a database is opened without its expirations being loaded")
        proto.run(ctx, TT, b, "open", {"spawn": ["spawn_key_value_expiration_loader"]}, step, False, ret=ret, need=("spawn",), stop=lambda x: short(x.path) == "spawn_key_value_expiration_loader")
    for b in spawn:
        def step(ps, l, c):
            if l == "loaded":
                ctx.ob("spawn:name", "name" in show_all(TT, c.arg(1)) and "database" in show_all(TT, c.arg(1)), c.where(), "the status of %s is looked at" % show(c.arg(1))[:40])
                return [("loaded", {(): 1}), ("not", {(): 0})]
            t = TT.norm(c.arg(1))
            ls = [x for x in TT.walk(t, 0) if x.k == "agg" and x.d[0] == K + "ExpirationLoader"]
            ctx.ob("spawn:task", len(ls) == 1, c.where(), "%s is enqueued" % show(t)[:60])
            for x in ls:
                f = dict(x.d[2])
                ctx.ob("spawn:database", show(TT.norm(f["database"])).replace("&", "") in ("database",) or show(TT.norm(f["database"])).startswith("clone(database"), c.where(), "the database of the task is %s" % show(f["database"])[:40])
                ctx.ob("spawn:launched", has(TT, f["launched_at"], "now"), c.where(), "the task was launched at %s" % show(f["launched_at"])[:40])
            return [("queued", {})]

        def ret(ps, val, st, ex):
            ctx.ob("spawn:queued", ps in ("queued", "loaded"), ctx.where(b), "expirations are not loaded")
        proto.run(ctx, TT, b, "spawn", {"loaded": ["key_value_expiration_loaded"], "queue": ["lookup_or_enqueue", "enqueue"]}, step, "", ret=ret, need=("queue",),
                  stop=lambda x: short(x.path) in ("key_value_expiration_loaded", "lookup_or_enqueue", "enqueue"))
