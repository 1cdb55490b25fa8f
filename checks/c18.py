"""C18: the vault's keys are sealed once, kept, and only ever opened with the key they were sealed with."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c17
import fwd
import proto
from prov import LOSSY, Prov, inner

EXPLAIN = ("The initialization and the unsealing of the vault and the key storages are explored over compiler MIR on every path, with every step - the file being there or "
           "not, storing and retrieving the key, comparing, sealing, writing, renaming, opening - succeeding and failing. What is sealed, stored and "
           "returned is compared, as provenance terms, with what was generated and retrieved.")
RULE = ("If the file of master keys exists it is unsealed, and neither it nor the stored vault key is replaced; otherwise the vault is initialized. Initializing stores the new vault key, retrieves it "
        "again, and goes on only if both are the same; the master keys are sealed for that key and get their file name last, after they were written and synced. "
        "Unsealing needs the vault key of this storage and the seal to open; otherwise it is an error, and no error is turned into a panic. Key storages look for a key "
        "where they put it, and report one as missing only if there is none.")
ASSUME = ["HPKE (hpke crate) opens a seal only with the private key it was made for.", "Renaming a file is atomic.", "A key storage other than the two here stores what it is given."]
L = "bonsaidb_local::"
V = L + "vault::"
VS = V + "Vault::"
ANY = V + "AnyVaultKeyStorage"
KS = V + "VaultKeyStorage"
LOCAL = V + "LocalVaultKeyStorage"
S3 = "bonsaidb_keystorage_s3::S3VaultKeyStorage"
SEAL = "single_shot_seal_in_place_detached"
PUBT = "to_bytes"


def check(ctx):
    TT = ctx.terms(opaque=LOSSY | {V + "EncryptionKey::random", ANY + "::vault_key_for", ANY + "::set_vault_key_for", V + "PublicKey::to_bytes"})
    start(ctx, TT)
    initialize(ctx, TT)
    unseal(ctx, TT)
    current(ctx, TT)
    panics(ctx, TT)
    local(ctx, TT)
    wrapper(ctx, TT)
    s3(ctx, TT)


def par(TT, b, t, i):
    return c17.par(TT, b, t, i)


def same(TT, a, b):
    return show(c17.strip(TT, a)) == show(c17.strip(TT, b))


def call_of(TT, t, n):
    return any(x.k == "call" and short(x.d[0]) == n for x in TT.walk(TT.norm(t), 1))


def start(ctx, TT):
    b = ctx.F.body(VS + "initialize")
    UN, IN = VS + "unseal", VS + "initialize_vault_key_storage"

    def step(ps, l, c):
        w = c.where()
        if l == "exists":
            ctx.ob("start:file", '"master-keys"' in show(TT.norm(c.arg(0))) and "server_directory" in show(TT.norm(c.arg(0))), w, "what is looked for is %s" % show(c.arg(0))[:60])
            return [(ps.set(there=1), {(): 1}), (ps.set(there=0), {(): 0})]
        if l in ("unseal", "init"):
            ctx.ob("start:which", ps.there == (1 if l == "unseal" else 0), w, "the vault is %s although its master keys %s" % ("unsealed" if l == "unseal" else "initialized", "exist" if ps.there else "were not found to exist" if l == "unseal" else "may exist"))
            ctx.ob("start:args", '"master-keys"' in show(TT.norm(c.arg(0))) and par(TT, b, c.arg(1), 1) and par(TT, b, c.arg(2), 3), w, "it is done with %s" % [show(c.arg(i))[:40] for i in range(3)])
            return [(ps.set(done=1), res_ok()), (ps.set(bad=1), res_err())]

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("start:done", ps.done == 1 and not ps.bad, ctx.where(b), "a vault is made that was neither unsealed nor initialized")
    proto.run(ctx, TT, b, "start", {"exists": ["exists", "try_exists", "is_file"], "unseal": [UN], "init": [IN]}, step, c11.rec(("there", "done", "bad")), need=("exists", "unseal", "init"), ret=ret,
              stop=lambda x: x.path in (UN, IN))


def initialize(ctx, TT):
    b = ctx.F.body(VS + "initialize_vault_key_storage")

    def ok2(ps, **kw):
        return [(ps.set(**kw), res_ok()), (ps.set(bad=1), res_err())]

    def to_final(t):
        t = c17.strip(TT, t)
        while t.k == "call" and short(t.d[0]) in ("to_path_buf", "as_path", "to_owned", "clone", "canonicalize") and t.d[1]:
            t = c17.strip(TT, t.d[1][0])
        return t.k == "par" and par(TT, b, t, 1)

    pairs, kept = set(), {}

    def pair(t):
        return {(x.x[1].id, x.x[3]) for x in TT.walk(TT.norm(t), 1) if x.k == "call" and short(x.d[0]) == "gen_keypair"}

    def ident(t):
        t = c17.strip(TT, t)
        return (show(t), (t.x[1].id, t.x[3]) if t.k == "call" and t.x is not None else None)

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "set":
            ctx.ob("init:storage", par(TT, b, c.arg(1), 2), w, "the key is stored for %s" % show(c.arg(1))[:40])
            k = [dict(x.d[2]) for x in TT.walk(TT.norm(c.arg(2)), 0) if x.k == "agg" and "private" in dict(x.d[2])]
            ctx.ob("init:stored", len(k) == 1 and call_of(TT, k[0]["private"], "gen_keypair") and call_of(TT, k[0]["public"], "gen_keypair"), w, "the key stored is %s" % show(c.arg(2))[:60])
            pairs.update(pair(c.arg(2)))
            return ok2(ps, stored=1)
        if l == "get":
            ctx.ob("init:after", ps.stored == 1, w, "the key is retrieved before it is stored")
            ctx.ob("init:retrieved-for", par(TT, b, c.arg(1), 2), w, "the key is retrieved for %s" % show(c.arg(1))[:40])
            return [(ps.set(got=1), {**res_ok(), (("v", 0), ("f", 0)): 1}), (ps.set(got=0), {**res_ok(), (("v", 0), ("f", 0)): 0}), (ps.set(bad=1), res_err())]
        if l == "cmp":
            ts = [TT.norm(c.arg(i)) for i in range(2)]
            x = [list(inner(ctx, TT, t)) for t in ts]
            keyed = [any(y.k == "call" and short(y.d[0]) == "gen_keypair" for y in z) for z in x]
            other = [any(y.k == "par" and y.d[0] != b.h or y.k == "call" and short(y.d[0]) == "vault_key_for" for y in z) for z in x]
            if not any(keyed):
                return None
            eq = n == "eq"
            return [(ps.set(match=1), {(): 1 if eq else 0}), (ps.set(match=0), {(): 0 if eq else 1})]
        if l == "seal":
            ctx.ob("init:sealed-for", call_of(TT, c.arg(1), "gen_keypair"), w, "the master keys are sealed for %s" % show(c.arg(1))[:60])
            pairs.update(pair(c.arg(1)))
            ctx.ob("init:one-pair", len(pairs) == 1, w, "the master keys are sealed for another key than is stored")
            m = TT.norm(c.arg(3))
            kept.setdefault("sealed", set()).update(ident(x.d[1][0]) for x in TT.walk(m, 0) if x.k == "call" and short(x.d[0]) == "serialize" and x.d[1])
            ctx.ob("init:sealed", any(x.k == "call" and short(x.d[0]) in ("serialize", "random") for x in TT.walk(m, 1)), w, "what is sealed is %s" % show(m)[:60])
            return ok2(ps, sealed=1)
        if l == "create":
            ctx.ob("init:matched", ps.match == 1 and ps.stored == 1 and ps.got == 1, w, "the master keys are written although the stored vault key was not retrieved and found to be the same")
            if to_final(c.arg(0)):
                ctx.fail("init:in-place", w, "the file of master keys exists before it is complete")
            return ok2(ps, created=1)
        if l == "write":
            p = [x for x in TT.walk(TT.norm(c.arg(1)), 1) if x.k == "agg" and x.d[0] == V + "HpkePayload"]
            ctx.ob("init:written", len(p) == 1, w, "what is written is %s" % show(c.arg(1))[:80])
            ctx.ob("init:written-once", ps.wrote is None, w, "it is written twice")
            return ok2(ps, wrote=1)
        if l == "sync":
            return ok2(ps, synced=1 if ps.wrote else None)
        if l == "rename":
            ctx.ob("init:named", to_final(c.arg(1)) and not to_final(c.arg(0)), w, "the file %s is renamed to %s" % (show(c.arg(0))[:40], show(c.arg(1))[:40]))
            ctx.ob("init:complete", ps.wrote == 1 and ps.synced == 1 and not ps.bad, w, "the file of master keys gets its name before it was written and synced")
            ctx.ob("init:matched", ps.match == 1, w, "the master keys are written although the stored vault key was not found to be the same")
            return ok2(ps, named=1)
        return None

    def assign(ps, st, place, rv, line, ex):
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == V + "HpkePayload":
            f = dict(zip(rv[5], rv[6]))
            ctx.ob("init:sealed-first", ps.sealed == 1, ctx.where(st.fr.body, line), "the payload is made before it is sealed")
            for k, src in (("encapsulated_key", SEAL), ("tag", SEAL)):
                t = TT.norm(ex.TT.op(st.fr, f[k]))
                ctx.ob("init:%s" % k, k == "tag" or call_of(TT, t, src), ctx.where(st.fr.body, line), "the %s kept is %s" % (k, show(t)[:60]))
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == V + "Vault":
            f = dict(zip(rv[5], rv[6]))
            t = TT.norm(ex.TT.op(st.fr, f["master_keys"]))
            ctx.ob("init:kept", not [x for x in TT.walk(t, 0) if x.k == "call" and short(x.d[0]) in ("deserialize",)], ctx.where(st.fr.body, line), "the master keys used are %s" % show(t)[:60])
            kept.setdefault("used", set()).add(ident(t))
            k = TT.norm(ex.TT.op(st.fr, f["current_master_key_id"]))
            ctx.ob("init:current", k.k == "con" and str(k.d[0]) == "0", ctx.where(st.fr.body, line), "the current key is %s" % show(k)[:40])
        return ps

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("init:done", ps.named == 1 and ps.stored == 1 and ps.match == 1 and ps.sealed == 1 and not ps.bad, ctx.where(b), "a vault is initialized without its master keys having been sealed and written, or its vault key having been stored")
    proto.run(ctx, TT, b, "init", {"set": ["set_vault_key_for"], "get": ["vault_key_for"], "cmp": ["eq", "ne"], "seal": [SEAL], "create": ["std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::write"],
                                   "write": ["write_all"], "sync": ["sync_all", "sync_data"], "rename": ["std::fs::rename"]}, step,
              c11.rec(("stored", "got", "match", "sealed", "created", "wrote", "synced", "named", "bad")), need=("set", "get", "cmp", "seal", "create", "write", "sync", "rename"), ret=ret, assign=assign, kcap=24)
    ctx.ob("init:same-keys", len(kept.get("used", ())) == 1 and kept.get("used") == kept.get("sealed"), ctx.where(b), "the keys used are not the keys sealed: %s" % {k: sorted(x[0] for x in v) for k, v in kept.items()})


def unseal(ctx, TT):
    b = ctx.F.body(VS + "unseal")

    def ok2(ps, **kw):
        return [(ps.set(**kw), res_ok()), (ps.set(bad=1), res_err())]

    def step(ps, l, c):
        w, n = c.where(), short(c.path)
        if l == "read":
            ctx.ob("unseal:file", par(TT, b, c.arg(0), 1), w, "the master keys are read from %s" % show(c.arg(0))[:40])
            return ok2(ps, read=1)
        if l == "get":
            ctx.ob("unseal:whose", par(TT, b, c.arg(1), 2), w, "the vault key is retrieved for %s" % show(c.arg(1))[:40])
            return [(ps.set(got=1), {**res_ok(), (("v", 0), ("f", 0)): 1}), (ps.set(got=0), {**res_ok(), (("v", 0), ("f", 0)): 0}), (ps.set(bad=1), res_err())]
        if l == "set":
            ctx.fail("unseal:replaced", w, "unsealing replaces the stored vault key")
            return None
        if l == "file":
            ctx.fail("unseal:overwritten", w, "unsealing changes the files of the vault")
            return None
        if l == "receiver":
            t = TT.norm(c.arg(1))
            ctx.ob("unseal:key", any(x.k == "fld" and x.d[1] == "private" and call_of(TT, x, "vault_key_for") for x in TT.walk(t, 0)), w, "the seal is opened with %s" % show(t)[:60])
            ctx.ob("unseal:encapsulated", "encapsulated_key" in show(TT.norm(c.arg(2))), w, "the seal's key is %s" % show(c.arg(2))[:60])
            return ok2(ps, recv=1)
        if l == "open":
            ctx.ob("unseal:what", "payload" in show(TT.norm(c.arg(1))), w, "what is opened is %s" % show(c.arg(1))[:60])
            return ok2(ps, opened=1)
        if l == "parse":
            if any("HashMap" in a.s for a in c.fn.args):
                ctx.ob("unseal:opened", ps.opened == 1, w, "the master keys are read before the seal was opened")
                ctx.ob("unseal:parsed", "payload" in show(TT.norm(c.arg(0))), w, "the master keys are %s" % show(c.arg(0))[:60])
                return ok2(ps, keys=1)
            return ok2(ps, form=1)
        return None

    def ret(ps, val, st, ex):
        v = val.get(())
        if v == 0:
            ctx.ob("unseal:done", ps.got == 1 and ps.opened == 1 and ps.keys == 1 and not ps.bad, ctx.where(b), "a vault is unsealed without its vault key, or without its seal having opened")
        elif ps.got == 0:
            t = TT.norm(ex.term(st, ("c", (0,))))
            ctx.ob("unseal:missing", any(x.k == "agg" and x.d[1] == "VaultKeyNotFound" for x in TT.walk(t, 0)), ctx.where(b), "a missing vault key is reported as %s" % show(t)[:60])
    proto.run(ctx, TT, b, "unseal", {"read": ["std::fs::read"], "get": ["vault_key_for"], "set": ["set_vault_key_for"], "file": ["std::fs::File::create", "std::fs::write", "std::fs::rename", "std::fs::remove_file", "std::fs::OpenOptions::open"],
                                     "receiver": ["setup_receiver"], "open": ["open_in_place_detached", "single_shot_open_in_place_detached"], "parse": ["bincode::deserialize"]}, step,
              c11.rec(("read", "got", "recv", "opened", "keys", "form", "bad")), need=("read", "get", "receiver", "open", "parse"), ret=ret, kcap=24)


def current(ctx, TT):
    """the current master key is the one with the highest id, and found under it"""
    b = ctx.F.body(VS + "unseal")
    n = 0
    for bb in [b] + list(ctx.F.children.get(b.h, ())):
        fr = TT.frame(bb, None, None)
        for blk in bb.blocks:
            for st in (blk[0] if blk else ()):
                rv = st[1]
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] == V + "Vault":
                    n += 1
                    f = dict(zip(rv[5], rv[6]))
                    k, m = TT.norm(TT.op(fr, f["current_master_key_id"])), TT.norm(TT.op(fr, f["master_keys"]))
                    ctx.ob("current:keys", any(x.k == "call" and short(x.d[0]) == "deserialize" for x in TT.walk(m, 0)), ctx.where(bb, st[2]), "the master keys are %s" % show(m)[:60])
                    ctx.ob("current:highest", call_of(TT, k, "max"), ctx.where(bb, st[2]), "the current key is %s" % show(k)[:60])
    ctx.floor("unsealed vaults", n, 1)
    c = ctx.F.body(VS + "current_master_key")
    t = TT.norm(TT.local(TT.frame(c, None, None), 0, ()))
    s = show(t)
    ctx.ob("current:found", "master_keys" in s and "current_master_key_id" in s, ctx.where(c), "the current key is %s" % s[:60])


def panics(ctx, TT):
    """an error of the cryptography or of the key storage is handed on"""
    n = 0
    SRC = ("open_in_place_detached", "setup_receiver", "vault_key_for", "set_vault_key_for", "decrypt", "decrypt_payload", "from_bytes", "deserialize", "encrypt_payload", "read", "open")
    for h, b in ctx.F.bodies.items():
        if not b.path.lstrip("<").startswith((V[:-2], L + "storage::TreeVault", "bonsaidb_keystorage_s3")) or "serde" in b.path:
            continue
        fr = TT.frame(b, None, None)
        for blk in b.blocks:
            if blk is None or not blk[1] or blk[1][0] != "call":
                continue
            fn = blk[1][1][1] if isinstance(blk[1][1], tuple) else blk[1][1]
            p = getattr(fn, "path", "")
            if short(p) in SRC:
                n += 1
            if p in ("core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect"):
                t = TT.norm(TT.op(fr, blk[1][2][0]))
                bad = [short(x.d[0]) for x in [c17.strip(TT, a) for a in alts(t)] if x.k == "call" and short(x.d[0]) in SRC]
                ctx.ob("panic:%s" % b.path, not bad, ctx.where(b, blk[1][5]), "an error of %s ends in a panic" % bad)
    ctx.floor("fallible steps", n, 12)


def local(ctx, TT):
    F = ctx.F
    st_, ge = ctx.method(LOCAL, KS, "set_vault_key_for"), ctx.method(LOCAL, KS, "vault_key_for")
    if st_ is None or ge is None:
        return
    where = []

    def path(b, t):
        s = c17.strip(TT, t)
        l, c = Prov(ctx, TT, b).of(t)
        where.append((frozenset(l), frozenset(c)))
        return ".directory" in l and "p2" in l

    def ok2(ps, **kw):
        return [(ps.set(**kw), res_ok()), (ps.set(bad=1), res_err())]

    def sstep(ps, l, c):
        w = c.where()
        if l == "create":
            ctx.ob("local:set:path", path(st_, c.arg(0)), w, "the key is stored in %s" % show(c.arg(0))[:60])
            return ok2(ps, made=1)
        d = TT.norm(c.arg(1))
        ctx.ob("local:set:key", any(x.k == "call" and short(x.d[0]) in ("serialize", "to_bytes") for x in TT.walk(d, 0)) and any(x.k == "par" and x.d[0] == st_.h and x.d[1] == 3 for x in inner(ctx, TT, d)), w, "what is stored is %s" % show(d)[:60])
        return ok2(ps, wrote=1)

    def sret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("local:set:done", ps.wrote == 1 and not ps.bad, ctx.where(st_), "a key is reported as stored although it was not")
    proto.run(ctx, TT, st_, "local:set", {"create": ["std::fs::File::create", "std::fs::OpenOptions::open"], "write": ["write_all", "std::fs::write"]}, sstep, c11.rec(("made", "wrote", "bad")), need=("write",), ret=sret)

    def gstep(ps, l, c):
        w = c.where()
        if l == "exists":
            ctx.ob("local:get:path", path(ge, c.arg(0)), w, "the key is looked for in %s" % show(c.arg(0))[:60])
            return [(ps.set(there=1), {(): 1}), (ps.set(there=0), {(): 0})]
        if l == "open":
            ctx.ob("local:get:path", path(ge, c.arg(0)), w, "the key is read from %s" % show(c.arg(0))[:60])
            return ok2(ps, opened=1)
        if l == "read":
            return ok2(ps, read=1)
        return ok2(ps, parsed=1)

    def gret(ps, val, st, ex):
        if val.get(()) == 0:
            some = val.get((("v", 0), ("f", 0)))
            if ps.there == 0:
                ctx.ob("local:get:none", some == 0, ctx.where(ge), "a key that does not exist is found")
            else:
                ctx.ob("local:get:done", some == 1 and ps.parsed == 1 and ps.read == 1 and not ps.bad, ctx.where(ge), "a stored key %s" % ("is reported as missing" if some == 0 else "is returned without having been read"))
    proto.run(ctx, TT, ge, "local:get", {"exists": ["exists", "is_file"], "open": ["std::fs::File::open", "std::fs::read"], "read": ["read_to_end", "read_exact"], "parse": ["bincode::deserialize", V + "KeyPair::from_bytes"]}, gstep,
              c11.rec(("there", "opened", "read", "parsed", "bad")), need=("exists", "open", "parse"), ret=gret)
    ctx.ob("local:same-place", len(set(where)) == 1, ctx.where(ge), "keys are looked for elsewhere than they are stored: %s" % sorted(map(str, set(where))))


def wrapper(ctx, TT):
    """the type-erased key storage hands on to the one it wraps"""
    n = 0
    for b in ctx.F.bodies.values():
        if b.kind == "closure" or not b.path.startswith("<T as " + ANY):
            continue
        n += 1
        m = short(b.path)
        cs = c17.one(ctx, TT, b, {KS + "::" + m})
        ctx.ob("wrapper:%s" % m, len(cs) == 1 and all(par(TT, b, a, i + 1) for _, _, args in cs for i, a in enumerate(args)), ctx.where(b), "%s is handed on %d times, or with other arguments" % (m, len(cs)))
        t = TT.norm(TT.local(TT.frame(b, None, None), 0, ()))
        calls = {short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call"}
        ctx.ob("wrapper:%s:result" % m, calls <= {m, "map_err", "to_string"} and m in calls, ctx.where(b), "the result of %s is %s" % (m, show(t)[:60]))
    ctx.floor("wrapped operations", n, 2)


def s3(ctx, TT0):
    P = S3 + "::path_for_id"
    pb = ctx.F.body(P)
    t0 = ctx.terms()
    pushed = [t0.norm(a) for bb, t, args in c17.one(ctx, t0, pb, {"alloc::string::String::push_str"}) for a in args[1:]] + [t0.norm(t0.local(t0.frame(pb, None, None), 0, ()))]
    ctx.ob("s3:own-place", any(x.k == "par" and x.d[0] == pb.h and x.d[1] == 2 for a in pushed for x in t0.walk(a, 0)), ctx.where(pb), "the place a key is kept in does not depend on whose it is")
    TT = ctx.terms(opaque=LOSSY | {P})
    se, ge = ctx.method(S3, KS, "set_vault_key_for"), ctx.method(S3, KS, "vault_key_for")
    if se is None or ge is None:
        return

    def common(c, b, l):
        w = c.where()
        if l == "key":
            t = TT.norm(c.arg(1))
            i = [x.d[1][1] for x in TT.walk(t, 0) if x.k == "call" and x.d[0] == P]
            ctx.ob("s3:place:%s" % short(b.path), len(i) == 1 and not (Prov(ctx, TT, b).of(t)[1] - {"path_for_id"}) and show(c17.strip(TT, i[0])).endswith("storage_id"), w, "the key is kept under %s" % show(t)[:60])
        elif l == "bucket":
            ctx.ob("s3:bucket:%s" % short(b.path), show(c17.strip(TT, c.arg(1))).endswith("bucket"), w, "the key is kept in %s" % show(c.arg(1))[:60])

    def sstep(ps, l, c):
        common(c, se, l)
        if l == "send":
            ctx.ob("s3:set:all", ps.key and ps.bucket and ps.body, c.where(), "a key is stored without its place or contents")
            return [(ps.set(sent=1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "body":
            t = TT.norm(c.arg(1))
            ctx.ob("s3:set:body", call_of(TT, t, "to_bytes") or call_of(TT, t, "serialize"), c.where(), "what is stored is %s" % show(t)[:60])
        return [(ps.set(**{l: 1}), {})]

    def sret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("s3:set:done", ps.sent == 1 and not ps.bad, ctx.where(se), "a key is reported as stored although it was not")
    EV = {"key": ["key"], "bucket": ["bucket"], "send": ["send"], "body": ["body"]}
    proto.run(ctx, TT, se, "s3:set", EV, sstep, c11.rec(("key", "bucket", "body", "sent", "bad")), need=("key", "bucket", "send", "body"), ret=sret)

    def gstep(ps, l, c):
        common(c, ge, l)
        if l == "send":
            ctx.ob("s3:get:all", ps.key and ps.bucket, c.where(), "a key is looked for without its place")
            return [(ps.set(sent=1), res_ok()), (ps.set(sent=0), res_err())]
        if l == "parse":
            return [(ps.set(parsed=1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "collect":
            return [(ps.set(body=1), res_ok()), (ps.set(bad=1), res_err())]
        return [(ps.set(**{l: 1}), {})]

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if t.k == "disc" and "err(" in show(t) and "ServiceError" in show(t):
            return ps.set(none=val if ps.none is None else ps.none)
        return ps

    def gret(ps, val, st, ex):
        if val.get(()) == 0:
            some = val.get((("v", 0), ("f", 0)))
            if some == 0:
                ctx.ob("s3:get:none", ps.sent == 0 and ps.none == nosuch, ctx.where(ge), "a key is reported as missing although %s" % ("it was found" if ps.sent else "looking for it failed otherwise"))
            else:
                ctx.ob("s3:get:done", ps.sent == 1 and ps.parsed == 1 and not ps.bad, ctx.where(ge), "a key is returned that was not read")
        else:
            ctx.ob("s3:get:errors", True)
    nosuch = NOSUCH
    proto.run(ctx, TT, ge, "s3:get", {"key": ["key"], "bucket": ["bucket"], "send": ["send"], "parse": [V + "KeyPair::from_bytes"], "collect": ["aws_smithy_http::byte_stream::ByteStream::collect"]}, gstep,
              c11.rec(("key", "bucket", "body", "sent", "bad", "parsed", "none")), need=("key", "bucket", "send", "parse"), ret=gret, branch=branch)


NOSUCH = 1
