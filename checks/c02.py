"""C02: a session is issued only for proven credentials."""
from terms import alts, short, show
from explore import res_ok, res_err
import fwd
import proto
import wire

EXPLAIN = ("Authentication is explored path by path from the request for a session to the point where a session is registered, through "
           "password verification, both halves of token authentication, the hashing threads and the challenge arithmetic; the session "
           "that is registered and the handle that is returned are reconstructed from compiler MIR.")
RULE = ("A user's or role's session is created only on paths on which, for that same user or token, the stored password hash was "
        "verified against the given password, or the challenge of a session removed just before was validated with that token and that "
        "session's nonce, time stamp and algorithm and the caller's answer; a challenge session is created only after the request time "
        "was compared with now and its proof checked, and carries no permissions and a fresh nonce. Verification succeeds only if the "
        "hash comparison did. A session has a number not used before, the identity that was proven, and the permissions of that "
        "identity's own groups and roles plus the configured ones; assuming a session never yields an unlimited handle.")
ASSUME = ["The cryptography of argon2, blake3 and rand is trusted.",
          "Permissions::merged of the `actionable` crate is the union of the sets it is given.",
          "assume_identity is guarded by permissions (C01); HandlerSession and Authenticate handling on the server is C03."]

ST = "bonsaidb_local::storage::"
SI = ST + "StorageInstance::"
TA = ST + "token_authentication::<impl bonsaidb_local::storage::StorageInstance>::"
AT = "bonsaidb_core::admin::authentication_token::implementation::<impl bonsaidb_core::admin::authentication_token::AuthenticationToken>::"
AR = ST + "argon::"
LOADS = ("bonsaidb_core::schema::collection::SerializedCollection::get", "bonsaidb_core::schema::collection::SerializedCollection::get_multiple",
         "bonsaidb_core::schema::collection::NamedCollection::load")


def some(t):
    """no way of None"""
    return bool(alts(t)) and not any((a.k == "agg" and a.d[1] == "None") or (a.k == "con" and str(a.d[0] if isinstance(a.d, tuple) else a.d).endswith("None")) for a in alts(t))


def peel(TT, t):
    t = TT.norm(t)
    while t.k == "call" and short(t.d[0]) in ("clone", "deref", "as_slice", "as_ref", "borrow", "expect", "unwrap", "as_str", "as_bytes", "into", "from", "iter", "into_iter") and t.d[1]:
        t = TT.norm(t.d[1][0])
    return t


def parfields(TT, b, t, depth=1):
    """(parameter number, field path) pairs a term is made of"""
    out = set()
    for x in TT.walk(t, depth):
        r, f = fwd.unwrap(x)
        if r.k == "par" and r.d[0] == b.h:
            out.add((r.d[1], f))
    return out


def check(ctx):
    F = ctx.F
    opaque = {b.path for b in F.bodies.values() if short(b.path) in ("assume_user", "assume_role", "effective_permissions", "validate_challenge",
                                                                    "check_request_time", "compute_challenge_response_blake3", "compute_request_time_hash_blake3")
              or b.path in (AR + "Hasher::verify", AR + "Hasher::hash", AR + "HashingThread::verify", AR + "HashingThread::hash")}
    opaque |= set(LOADS)
    TT = ctx.terms(opaque=opaque)
    issue(ctx, TT)
    begin(ctx, TT)
    hasher(ctx, TT)
    threads(ctx, TT)
    challenge(ctx, TT)
    for n, var in (("assume_user", "User"), ("assume_role", "Role")):
        assume(ctx, TT, n, var)
    effective(ctx, TT)
    assume_session(ctx, TT)
    entry(ctx, TT)
    password(ctx, TT)
    defaults(ctx, TT)


def users(TT, t):
    """identity of a loaded document: the call that loaded it, printed"""
    return show(TT.norm(t))


def issue(ctx, TT):
    """authenticate_inner: nothing is issued without proof."""
    b = ctx.need(SI + "authenticate_inner")
    if b is None:
        return

    def step(ps, l, c):
        kind, who = ps
        if l == "verify":
            user = None
            for a in alts(TT.norm(c.arg(1))):
                r, f = a, ()
                s = show(a)
                if s.endswith(".header.id"):
                    user = s[:-len(".header.id")]
                else:
                    ctx.fail("password:user", c.where(), "verifies the password of %s" % s[-100:])
            pw = parfields(TT, b, c.arg(2), 0)
            ctx.ob("password:given", any(i == 2 and f and f[-1] == "password" for i, f in pw), c.where(), "verifies %s, not the password given" % show(c.arg(2))[-100:])
            hs = show(peel(TT, c.arg(3)))
            ctx.ob("password:stored", all(".contents.argon_hash" in show(x) for x in alts(TT.norm(c.arg(3)))), c.where(), "verifies against %s" % hs[-100:])
            hu = {show(x).split(".contents.argon_hash")[0].replace("clone(", "").replace("ok_or(", "") for x in alts(TT.norm(c.arg(3)))}
            ctx.ob("password:same-user", user is not None and all(user in h or h in user for h in hu), c.where(), "the hash is %s's, the user is %s" % (sorted(hu)[:1], user))
            return [(("pw", show(TT.norm(c.arg(1)))), res_ok()), (("refused", None), res_err())]
        if l == "validate":
            ctx.ob("token:removed", kind == "removed", c.where(), "a challenge is validated that was not taken out of the sessions first: an answer can be used again")
            tok = show(TT.norm(c.arg(0)))
            ch = [show(TT.norm(c.arg(i))) for i in (1, 2, 3)]
            for i, f in ((1, "algorithm"), (2, "server_timestamp"), (3, "nonce")):
                t = TT.norm(c.arg(i))
                ok = all(x.k != "con" and f in show(x) and "remove(" in show(x) for x in alts(peel(TT, t)))
                ctx.ob("token:%s" % f, ok, c.where(), "the challenge is validated with %s %s, not the removed session's" % (f, show(t)[-100:]))
            h = parfields(TT, b, c.arg(4), 1)
            ctx.ob("token:answer", any(i == 2 for i, f in h), c.where(), "validates %s, not the caller's answer" % show(c.arg(4))[-80:])
            ctx.ob("token:token", "get(" in tok and "remove(" in tok, c.where(), "validates with token %s, not the one the challenge was made for" % tok[-120:])
            return [(("token", show(fwd.unwrap(TT.norm(c.arg(0)))[0])), res_ok()), (("refused", None), res_err())]
        if l == "remove":
            ks = parfields(TT, b, c.arg(1), 0)
            ctx.ob("token:session", any(i == 4 for i, f in ks), c.where(), "removes session %s" % show(c.arg(1))[-80:])
            return [(("removed", None), {(): 1}), (("gone", None), {(): 0})]
        if l == "issue":
            if kind == "pw":
                u = show(TT.norm(c.arg(1)))
                ctx.ob("password:session-user", short(c.path) == "assume_user" and who == u + ".header.id" or any(
                    show(x) + ".header.id" == who for x in alts(TT.norm(c.arg(1)))), c.where(), "the session is issued to %s, the password was %s's" % (u[:100], who[:100]))
            elif kind == "token":
                u = show(TT.norm(c.arg(1)))
                want = "User" if short(c.path) == "assume_user" else "Role"
                ok = ".identity." in u and want in u and "get(" in u
                ctx.ob("token:session-identity", ok, c.where(), "the session is issued to %s" % u[-160:])
                ids = {show(fwd.unwrap(x)[0]) for x in TT.walk(c.arg(1), 0) if x.k == "fld" and "identity" in fwd.unwrap(x)[1]}
                ctx.ob("token:same-token", ids == {who}, c.where(), "the identity is not the validated token's: %s, validated %s" % (sorted(ids), who))
            else:
                ctx.fail("issued-without-proof", c.where(), "a session is issued on a path on which nothing was proven (%s)" % kind)
            return [(("issued", None), res_ok()), (("issued", None), res_err())]
        if l == "begin":
            return [(("begun", None), res_ok()), (("begun", None), res_err())]
        return None

    def ret(ps, val, st, ex):
        v = val.get(())
        ok = ps[0] in ("issued", "begun")
        ctx.ob("authenticate:success", ok or v == 1, ctx.where(b), "authentication can succeed without a session being issued (%s)" % ps[0])
    proto.run(ctx, TT, b, "authenticate", {"verify": [AR + "Hasher::verify"], "validate": [AT + "validate_challenge"], "issue": [SI + "assume_user", SI + "assume_role"],
                                           "begin": [TA + "begin_token_authentication"], "remove": ["std::collections::hash::map::HashMap::<K, V, S, A>::remove"]},
              step, ("none", None), need=("verify", "validate", "issue", "begin", "remove"), ret=ret)


def session_agg(TT, t):
    return proto.has_agg(TT, t, "bonsaidb_core::connection::Session", 1)


def begin(ctx, TT):
    b = ctx.need(TA + "begin_token_authentication")
    if b is None:
        return

    def step(ps, l, c):
        timed, checked = ps
        if l == "check":
            tok = show(TT.norm(c.arg(3)))
            ctx.ob("begin:time", parfields(TT, b, c.arg(0), 0) == {(3, ())}, c.where(), "checks time %s" % show(c.arg(0))[:80])
            ctx.ob("begin:proof", (4, ()) in parfields(TT, b, c.arg(1), 0), c.where(), "checks %s" % show(c.arg(1))[:80])
            ctx.ob("begin:token", "get(" in tok and tok.endswith(".contents.token") and any(i == 2 for i, f in parfields(TT, b, c.arg(3), 0)), c.where(), "checks with %s" % tok[:100])
            return [((timed, True), res_ok()), ((timed, False), res_err())]
        if l == "insert":
            ss = session_agg(TT, c.arg(2))
            if not ss:
                return None
            ctx.ob("begin:checked", checked, c.where(), "a challenge is handed out without the proof of the request time")
            ctx.ob("begin:timed", timed, c.where(), "a challenge is handed out without comparing the request time with now")
            for s in ss:
                d = dict(s.d[2])
                p = TT.norm(d["permissions"])
                ctx.ob("begin:powerless", all(a.k == "call" and short(a.d[0]) == "default" for a in alts(p)), c.where(), "the challenge session has permissions %s" % show(p)[:80])
                a = TT.norm(d["authentication"])
                ok = a.k == "agg" and a.d[1] == "TokenChallenge"
                ctx.ob("begin:challenge", ok, c.where(), "the session is %s" % show(a)[:80])
                if ok:
                    dd = dict(a.d[2])
                    ctx.ob("begin:id", parfields(TT, b, dd["id"], 0) == {(2, ())}, c.where(), "the challenge is for token %s" % show(dd["id"]))
                    n = [x for x in TT.walk(dd["nonce"], 0) if x.k == "call" and short(x.d[0]) in ("gen", "fill", "random", "sample", "gen_array")]
                    ctx.ob("begin:nonce", bool(n), c.where(), "the nonce is %s, not random" % show(dd["nonce"])[:80])
                sid(ctx, TT, "begin", c, d["id"])
            return [(("done",), {})] if False else [((timed, checked), {})]
        return None

    def branch(ps, st, o, src, val, ex):
        if src is None and o[0] in ("c", "m") and not ps[0]:
            t = TT.norm(ex.term(st, o))
            for x in TT.walk(t, 0):
                if x.k == "bin" and any(y.k == "call" and short(y.d[0]) == "duration_between" for y in TT.walk(x, 0)) \
                        and (3, ()) in parfields(TT, b, x, 0):
                    if any(y.k == "call" and short(y.d[0]) == "now" for y in TT.walk(x, 0)) and val is not None:
                        op, (l, r) = x.d
                        big = ("Gt", "Ge")
                        small = ("Lt", "Le")
                        left = any(y.k == "call" and short(y.d[0]) == "duration_between" for y in TT.walk(l, 0))
                        far = (op in big) == left      # true means: too far apart
                        if op in big + small and bool(val) != far:
                            return (True, ps[1])
        return ps
    proto.run(ctx, TT, b, "begin", {"check": [AT + "check_request_time"], "insert": ["std::collections::hash::map::HashMap::<K, V, S, A>::insert"]},
              step, (False, False), need=("check", "insert"), branch=branch)


def sid(ctx, TT, name, c, t):
    """A session number comes from the counter that was just moved on."""
    s = show(TT.norm(t))
    ctx.ob("%s:session-number" % name, "last_session_id" in s, c.where(), "the session's number is %s" % s[:100])


def hasher(ctx, TT):
    b = ctx.need(AR + "Hasher::verify")
    if b is None:
        return

    def step(ps, l, c):
        if l == "send":
            for a in proto.has_agg(TT, c.arg(1), AR + "HashRequest", 0):
                d = dict(a.d[2])
                ctx.ob("verify:password", parfields(TT, b, d["password"], 0) == {(3, ())}, c.where(), "asks to verify %s" % show(d["password"])[:80])
                v = TT.norm(d["verify_against"])
                ctx.ob("verify:hash", some(v) and parfields(TT, b, v, 0) == {(4, ())}, c.where(), "asks to verify against %s: nothing is verified" % show(v)[:80])
            return [("asked", res_ok()), ("no", res_err())]
        if l == "recv":
            if ps != "asked":
                return [(ps, {})]
            return [("yes", res_ok({(): 0})), ("no", res_ok({(): 1})), ("no", res_err())]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("verify:outcome", ps == "yes" or val.get(()) == 1, ctx.where(b), "a password can be accepted although its verification did not succeed (%s)" % ps)
    proto.run(ctx, TT, b, "verify", {"send": ["flume::Sender::<T>::send"], "recv": ["flume::Receiver::<T>::recv"]}, step, "start", need=("send", "recv"), ret=ret)


def threads(ctx, TT):
    b = ctx.need(AR + "HashingThread::process_requests")
    if b is not None:
        def step(ps, l, c):
            if l == "recv":
                return [(("got", None), res_ok()), (("end", None), res_err())]
            if l == "verify":
                ctx.ob("thread:verify-hash", "verify_against" in show(c.arg(1)), c.where(), "verifies against %s" % show(c.arg(1))[:80])
                return [(("verified", ps[1]), {})]
            if l == "hash":
                ctx.ob("thread:not-verified", ps[1] != 1, c.where(), "a request to verify is answered by hashing, which always succeeds")
                return [(("hashed", ps[1]), {})]
            if l == "send":
                t = TT.norm(c.arg(1))
                ok = bool(alts(t)) and all(a.k == "call" and short(a.d[0]) in ("verify", "hash") for a in alts(t))
                ctx.ob("thread:answer", ok, c.where(), "answers %s, not the outcome" % show(t)[:80])
                ctx.ob("thread:decided", ps[0] in ("verified", "hashed"), c.where(), "answers before the outcome is known")
                return [(("sent", None), {})]
            return None

        def branch(ps, st, o, src, val, ex):
            if src is not None and ps[0] == "got":
                if show(TT.norm(ex.term(st, ("c", src)))).endswith(".verify_against"):
                    return (ps[0], val)
            return ps
        proto.run(ctx, TT, b, "thread", {"recv": ["flume::Receiver::<T>::recv"], "verify": [AR + "HashingThread::verify"], "hash": [AR + "HashingThread::hash"],
                                         "send": ["flume::Sender::<T>::send"]}, step, ("start", None), need=("recv", "verify", "send", "hash"), branch=branch, rets=0)
    b = ctx.need(AR + "HashingThread::verify")
    if b is not None:
        def step(ps, l, c):
            h = [x for x in TT.walk(c.arg(0), 0) if x.k == "call" and short(x.d[0]) == "new"]
            ctx.ob("compare:hash", bool(h) and (2, ()) in parfields(TT, b, c.arg(0), 0), c.where(), "compares with %s" % show(c.arg(0))[:80])
            pw = parfields(TT, b, c.arg(2), 0)
            ctx.ob("compare:password", any(i == 1 and "password" in f for i, f in pw), c.where(), "compares %s" % show(c.arg(2))[:80])
            return [("ok", res_ok()), ("bad", res_err())]

        def ret(ps, val, st, ex):
            ctx.ob("compare:outcome", ps == "ok" or val.get(()) == 1, ctx.where(b), "succeeds although the password does not match the hash")
        proto.run(ctx, TT, b, "compare", {"cmp": ["verify_password"]}, step, "start", need=("cmp",), ret=ret)
    b = ctx.need(AR + "HashingThread::hash")
    if b is not None:
        def step(ps, l, c):
            pw = parfields(TT, b, c.arg(1), 1) | {x for x in captured(TT, c.arg(1))}
            ctx.ob("hash:password", any("password" in f for i, f in pw) or "password" in show(c.arg(1)), c.where(), "hashes %s" % show(c.arg(1))[:80])
            return [("ok", res_ok()), ("bad", res_err())]
        tmpl = [x for x in ctx.F.bodies.values() if short(x.path) == "initialize_builder_template"]
        proto.run(ctx, TT, b, "hash", {"h": ["hash_password_into_with_memory", "hash_password_into", "hash_password"]}, step, "start", need=(), stop=lambda x: x in tmpl)


def captured(TT, t):
    return ()


def challenge(ctx, TT):
    """Ok only if the computed hash equals the one given."""
    spec = {"validate_challenge": ("compute_challenge_response_blake3", {0: (1, ("token",)), 1: (4, ()), 2: (3, ())}, 5),
            "check_request_time": ("compute_request_time_hash_blake3", {0: (1, ()), 1: (4, ())}, 2)}
    for n, (comp, args, given) in spec.items():
        b = ctx.need(AT + n)
        if b is None:
            continue

        def step(ps, l, c, n=n, comp=comp, args=args, given=given, b=b):
            l, r = c.arg(0), c.arg(1)
            both = [l, r]
            cc = [x for t in both for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) == comp]
            if not cc:
                return None
            for x in cc:
                for i, w in args.items():
                    got = parfields(TT, b, x.d[1][i], 0)
                    ctx.ob("%s:%d" % (n, i), w in got, c.where(), "%s is computed from %s" % (comp, show(x.d[1][i])[:60]))
            g = [t for t in both if (given, ()) in parfields(TT, b, t, 0) and not any(x.k == "call" and short(x.d[0]) == comp for x in TT.walk(t, 0))]
            ctx.ob("%s:given" % n, len(g) == 1, c.where(), "the comparison is between %s and %s" % (show(l)[:60], show(r)[:60]))
            eq = short(c.path) == "eq"
            return [("same", {(): 1 if eq else 0}), ("differ", {(): 0 if eq else 1})]

        def ret(ps, val, st, ex, n=n, b=b):
            ctx.ob("%s:outcome" % n, ps == "same" or val.get(()) == 1, ctx.where(b), "succeeds although the proof does not match")
        proto.run(ctx, TT, b, n, {"eq": ["eq", "ne"]}, step, "start", need=("eq",), ret=ret)
    for n, want in (("compute_challenge_response_blake3", {1, 2, 3}), ("compute_request_time_hash_blake3", {1, 2})):
        b = ctx.need(AT + n)
        if b is None:
            continue
        t = TT.norm(TT.local(TT.frame(b), 0, ()))
        kh = [x for x in alts(t) if x.k == "call" and short(x.d[0]) == "keyed_hash"]
        ctx.ob("%s:keyed" % n, bool(kh) and len(kh) == len(alts(t)), ctx.where(b), "the proof is %s" % show(t)[:100])
        for x in kh:
            key = {i for i, f in parfields(TT, b, x.d[1][0], 1)}
            secret = 1 if n.startswith("compute_challenge") else 2
            dk = [y for y in TT.walk(x.d[1][0], 1) if y.k == "call" and short(y.d[0]) == "derive_key"]
            ctx.ob("%s:secret" % n, bool(dk) and secret in {i for y in dk for i, f in parfields(TT, b, y.d[1][1], 1)}, ctx.where(b), "the key is derived from %s" % show(x.d[1][0])[:100])
            allp = {i for i, f in parfields(TT, b, x, 2)}
            ctx.ob("%s:inputs" % n, want <= allp, ctx.where(b), "the proof depends only on parameters %s" % sorted(allp))


def assume(ctx, TT, n, var):
    b = ctx.need(SI + n)
    if b is None:
        return

    def step(ps, l, c):
        counted, ins = ps
        if l == "insert":
            ss = session_agg(TT, c.arg(2))
            if not ss:
                return None
            ctx.ob("%s:once" % n, not ins, c.where(), "registers two sessions")
            ctx.ob("%s:counted" % n, counted, c.where(), "the session's number may have been used before: the counter was not moved on")
            sid(ctx, TT, n, c, c.arg(1))
            for s in ss:
                d = dict(s.d[2])
                i = TT.norm(d["id"])
                ctx.ob("%s:id" % n, some(i) and show(i) == show(TT.norm(c.arg(1))), c.where(),
                       "registered as %s, says %s" % (show(c.arg(1))[:60], show(i)[:60]))
                p = TT.norm(d["permissions"])
                ok = all(a.k == "call" and short(a.d[0]) == "effective_permissions" and (2, ("contents",)) in parfields(TT, b, a.d[1][0], 0) for a in alts(p))
                ctx.ob("%s:permissions" % n, ok, c.where(), "the session has permissions %s, not the identity's" % show(p)[:120])
                ctx.ob("%s:inherited" % n, all(a.k == "call" and "authenticated_permissions" in show(a.d[1][2]) for a in alts(p)), c.where(), "inherits %s" % show(p)[:120])
                ident = [x for x in TT.walk(d["authentication"], 1) if x.k == "agg" and x.d[1] == var]
                ctx.ob("%s:identity" % n, bool(ident) and all((2, ("header", "id")) in parfields(TT, b, dict(x.d[2])["id"], 0) for x in ident), c.where(),
                       "the session is %s's" % show(d["authentication"])[:100])
            return [((counted, True), {})]
        return None

    def assign(ps, st, place, rv, line, ex):
        if rv[0] in ("bin", "use", "cast") and any(e[0] == "f" and len(e) > 2 and e[2] == "last_session_id" for e in place[1:]):
            return (True, ps[1])
        return ps

    def ret(ps, val, st, ex):
        v = val.get(())
        ctx.ob("%s:registered" % n, v == 1 or ps[1], ctx.where(b), "succeeds without registering the session")
        ctx.ob("%s:failed" % n, not (v == 1 and ps[1]), ctx.where(b), "fails although the session is registered")
    proto.run(ctx, TT, b, n, {"insert": ["std::collections::hash::map::HashMap::<K, V, S, A>::insert"]}, step, (False, False), need=("insert",), ret=ret, assign=assign)
    handle(ctx, TT, b, n, True)


def handle(ctx, TT, b, n, auth):
    """Every handle returned is limited to a session."""
    t = TT.norm(TT.awaited(TT.local(TT.frame(b), 0, ()), 0))
    aggs = [x for x in TT.walk(t, 1) if x.k == "agg" and x.d[0] == ST + "Storage"]
    ctx.ob("%s:handle" % n, bool(aggs), ctx.where(b), "returns %s" % show(t)[:100])
    for x in aggs:
        d = dict(x.d[2])
        e = TT.norm(d["effective_session"])
        ctx.ob("%s:limited" % n, some(e), ctx.where(b), "the handle's session is %s: it is not limited" % show(e)[:80])
        if auth:
            a = TT.norm(d["authentication"])
            ctx.ob("%s:authenticated" % n, some(a), ctx.where(b), "the handle's authentication is %s" % show(a)[:80])
            ses = proto.has_agg(TT, e, "bonsaidb_core::connection::Session", 1)
            ctx.ob("%s:own-session" % n, bool(ses), ctx.where(b), "the handle's session is %s" % show(e)[:100])


def effective(ctx, TT):
    """Union of the statements of the identity's own groups, its roles' groups and the inherited permissions."""
    for p, roles in (("bonsaidb_core::admin::user::User::effective_permissions", True), ("bonsaidb_core::admin::role::Role::effective_permissions", False)):
        b = ctx.need(p)
        if b is None:
            continue
        seen = {}

        def step(ps, l, c, b=b, roles=roles):
            if l == "many":
                ty = c.fn.args[0].s if c.fn.args else ""
                t = c.arg(0)
                pf = {f for i, f in parfields(TT, b, t, 1) if i == 1}
                if ty.endswith("Role"):
                    ctx.ob("%s:roles" % short(b.path.rsplit("::", 1)[0]), ("roles",) in pf and ("groups",) not in pf, c.where(), "looks up roles by %s" % show(t)[:80])
                    return [(ps | {"roles"}, res_ok()), (ps | {"err"}, res_err())]
                rl = any(x.k == "call" and short(x.d[0]) == "get_multiple" for x in TT.walk(t, 1))
                own = ("groups",) in pf
                ok = own or rl or "own" in ps
                ctx.ob("%s:role-groups" % short(b.path.rsplit("::", 1)[0]), rl or "roles" not in ps or "no-groups" in ps, c.where(), "looks up groups by %s: the roles' groups are left out" % show(t)[:80])
                ctx.ob("%s:groups" % short(b.path.rsplit("::", 1)[0]), ok, c.where(), "looks up groups by %s" % show(t)[:80])
                add = {"own"} if own else set()
                if rl:
                    add |= {"role-groups"}
                return [(ps | add, res_ok()), (ps | {"err"}, res_err())]
            if l == "extend":
                if {f for i, f in parfields(TT, b, c.arg(1), 1)} & {("groups",)}:
                    return [(ps | {"own"}, {})]
                return None
            if l == "merged":
                t = c.arg(0)
                ctx.ob("%s:inherit" % short(b.path.rsplit("::", 1)[0]), any(i == 3 for i, f in parfields(TT, b, t, 1)), c.where(), "merges %s" % show(t)[:100])
                ctx.ob("%s:own" % short(b.path.rsplit("::", 1)[0]), "own" in ps, c.where(), "merges permissions without those of the identity's own groups")
                if "roles" in ps:
                    ctx.ob("%s:by-role" % short(b.path.rsplit("::", 1)[0]), True, c.where(), "")
                return [(ps | {"merged"}, {})]
            return None

        def ret(ps, val, st, ex, b=b):
            ctx.ob("%s:merged" % short(b.path.rsplit("::", 1)[0]), "merged" in ps or val.get(()) == 1, ctx.where(b), "returns permissions that were not merged")
            ctx.ob("%s:error" % short(b.path.rsplit("::", 1)[0]), not ("err" in ps and val.get(()) == 0), ctx.where(b), "a failed look-up ends in success")
        def branch(ps, st, o, src, val, ex):
            if src is None and o[0] in ("c", "m") and "roles" in ps and val is not None:
                t = TT.norm(ex.term(st, o))
                neg = False
                while t.k == "un":
                    t, neg = TT.norm(t.d[1]), not neg
                if t.k == "call" and short(t.d[0]) == "is_empty" and bool(val) != neg and any(
                        x.k == "call" and short(x.d[0]) == "get_multiple" for x in TT.walk(t, 1)):
                    return ps | {"no-groups"}
            return ps
        proto.run(ctx, TT, b, "effective:" + short(p.rsplit("::", 1)[0]),
                  {"many": ["get_multiple"], "merged": ["actionable::permissions::Permissions::merged"], "extend": ["core::iter::traits::collect::Extend::extend", "extend"]},
                  step, frozenset(), need=("many", "merged"), ret=ret, branch=branch)
        # the statements merged are the looked-up groups' own
        t = TT.norm(TT.local(TT.frame(b), 0, ()))
        src = any(x.k == "fld" and x.d[1] == "statements" for x in TT.walk(t, 3)) or closure_reads(ctx.F, b, "statements")
        ctx.ob("effective:%s:statements" % short(p.rsplit("::", 1)[0]), src, ctx.where(b), "does not use the groups' statements")


def closure_reads(F, b, field):
    from facts import Fn

    def places(b):
        for bl in b.blocks:
            if bl is None:
                continue
            for p, rv, ln in bl[0]:
                for o in rv:
                    if isinstance(o, tuple) and o and o[0] in ("c", "m"):
                        yield o[1]
                if rv[0] == "ref":
                    yield rv[2]
            if bl[1][0] == "call":
                for a in bl[1][2]:
                    if a[0] in ("c", "m"):
                        yield a[1]
    st = [b]
    while st:
        x = st.pop()
        st += F.children.get(x.h, [])
        for p in places(x):
            if any(e[0] == "f" and len(e) > 2 and e[2] == field for e in p[1:]):
                return True
    return False


def assume_session(ctx, TT):
    b = ctx.method(ST + "Storage", ST + "StorageNonBlocking", "assume_session")
    if b is None:
        return
    handle(ctx, TT, b, "assume_session", False)

    def step(ps, l, c):
        if l == "get":
            if "AuthenticatedSession" not in c.fr.body.locals[c.args[0][1][0]].s:
                return None
            ctx.ob("assume_session:key", any(f[:1] == ("id",) for i, f in parfields(TT, b, c.arg(1), 0) if i == 2), c.where(), "looks up session %s" % show(c.arg(1))[:80])
            return [("found", {(): 1}), ("unknown", {(): 0})]
        return None

    def ret(ps, val, st, ex):
        ctx.ob("assume_session:unknown", ps != "unknown" or val.get(()) == 1, ctx.where(b), "a session that does not exist can be assumed")
    proto.run(ctx, TT, b, "assume_session:known", {"get": ["std::collections::hash::map::HashMap::<K, V, S, A>::get"]}, step, "start", need=("get",), ret=ret)
    t = TT.norm(TT.local(TT.frame(b), 0, ()))
    for x in TT.walk(t, 1):
        if x.k == "agg" and x.d[0] == ST + "Storage":
            for s in proto.has_agg(TT, dict(x.d[2])["effective_session"], "bonsaidb_core::connection::Session", 1):
                p = TT.norm(dict(s.d[2])["permissions"])
                ok = all(a.k == "call" and short(a.d[0]) == "merged" for a in alts(p))
                ctx.ob("assume_session:permissions", ok, ctx.where(b), "the assumed session has permissions %s" % show(p)[:100])


def entry(ctx, TT):
    """Storage::authenticate: the session a challenge answer belongs to is the handle's own."""
    b = ctx.method(ST + "Storage", "bonsaidb_core::connection::StorageConnection", "authenticate")
    if b is None:
        return

    def step(ps, l, c):
        s = show(TT.norm(c.arg(3)))
        clo = [x for x in TT.walk(c.arg(3), 0) if x.k == "clo"]
        ok = (1, ("authentication",)) in parfields(TT, b, c.arg(3), 1) or (ps == "none" and s.endswith("None{}"))
        ctx.ob("entry:session", ok, c.where(), "answers the challenge of session %s, not the handle's own" % s[:100])
        ctx.ob("entry:authentication", wire.is_field(TT, c.arg(1), b, 2, ""), c.where(), "authenticates with %s" % show(c.arg(1))[:80])
        for a in alts(TT.norm(c.arg(2))):
            if a.k == "agg" and a.d[1] == "Some":
                u = [x for x in TT.walk(a, 0) if x.k == "call" and short(x.d[0]) in ("load", "get")]
                ctx.ob("entry:user", bool(u) and any(i == 2 for i, f in parfields(TT, b, a, 0)), c.where(), "the user authenticated is %s" % show(a)[:100])
        return [(1, res_ok()), (2, res_err())]

    def ret(ps, val, st, ex):
        ctx.ob("entry:outcome", val.get(()) == 1 or ps == 1, ctx.where(b), "succeeds although authentication did not")

    def branch(ps, st, o, src, val, ex):
        if src is not None and ps == 0 and val == 0 and show(TT.norm(ex.term(st, ("c", src)))) == "self.authentication":
            return "none"
        return ps
    proto.run(ctx, TT, b, "entry", {"in": [SI + "authenticate_inner"]}, step, 0, need=("in",), ret=ret, branch=branch)


def password(ctx, TT):
    b = ctx.method(ST + "StorageInstance", "bonsaidb_core::connection::StorageConnection", "set_user_password")
    if b is None:
        return

    def step(ps, l, c):
        if l == "hash":
            ctx.ob("set-password:password", parfields(TT, b, c.arg(2), 0) == {(3, ())}, c.where(), "stores the hash of %s" % show(c.arg(2))[:80])
            return [("hashed", res_ok()), ("failed", res_err())]
        if l == "update":
            ctx.ob("set-password:stored", ps == "set", c.where(), "the user is saved without the new hash (%s)" % ps)
            u = show(TT.norm(c.arg(0)))
            ctx.ob("set-password:user", any(i == 2 for i, f in parfields(TT, b, c.arg(0), 0)), c.where(), "saves %s" % u[:80])
            return [("saved", res_ok()), ("failed", res_err())]
        return None

    def assign(ps, st, place, rv, line, ex):
        if any(e[0] == "f" and len(e) > 2 and e[2] == "argon_hash" for e in place[1:]):
            if ps == "hashed":
                return "set"
        return ps

    def ret(ps, val, st, ex):
        ctx.ob("set-password:outcome", ps == "saved" or val.get(()) == 1, ctx.where(b), "succeeds without saving the new password")
    proto.run(ctx, TT, b, "set-password", {"hash": [AR + "Hasher::hash"], "update": ["bonsaidb_core::document::collection::CollectionDocument::<C>::update"]}, step, "start", need=("hash", "update"), ret=ret, assign=assign)


def defaults(ctx, TT):
    """Connections that have not logged in have the configured default permissions, and no more."""
    b = ctx.need("bonsaidb_server::server::CustomServer::<B>::open")
    if b is None:
        return
    n = 0
    from facts import Fn
    st = [b]
    while st:
        x = st.pop()
        st += [c for c in ctx.F.children.get(x.h, [])]
        fr = TT.frame(x)
        for bi, bl in enumerate(x.blocks):
            if bl is None:
                continue
            for p, rv, ln in bl[0]:
                if rv[0] == "agg" and rv[1] == "adt" and rv[2].endswith("server::Data"):
                    t = TT.rv(fr, rv, bi, (), 0, p[0])
                    d = dict(t.d[2]).get("default_session")
                    if d is None:
                        continue
                    n += 1
                    perms = [dict(s.d[2])["permissions"] for s in proto.has_agg(TT, d, "bonsaidb_core::connection::Session", 0)]
                    ctx.ob("default-session", bool(perms) and all("default_permissions" in show(TT.norm(q)) for q in perms), ctx.where(x, ln), "connections start with %s" % show(d)[:120])
    ctx.ob("default-session:found", n > 0, ctx.where(b), "where the default session is made was not found")
