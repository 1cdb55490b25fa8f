"""C17: what is stored of an encrypted collection is encrypted."""
from terms import alts, short, show
from explore import res_ok, res_err
import c11
import c16
import fwd
import proto
from prov import LOSSY, Prov

EXPLAIN = ("Every place that makes a description of a tree to be opened is enumerated from compiler MIR, and each of the functions that make one for the "
           "trees of a collection is explored on every path, with the collection having an encryption key or not and the storage having a default "
           "vault or not. The functions that encrypt and decrypt a block are explored for every combination of key and compression, and what "
           "reaches the cipher is compared, as provenance terms, with what was given.")
RULE = ("Trees are opened for the key-value store, under the storage's own vault, or for a collection: then with a vault whose key is the collection's "
        "if it has one, and the default one's otherwise, on every path of all functions making them; the tree's name is one of the same collection or view. A collection's key is what its "
        "definition declares, or the storage's default. Encrypting a block with a key returns what the cipher made of it (compressed at most), marked as such; a marked block "
        "is decrypted. Each encryption draws a fresh nonce, which is stored with the ciphertext and used to decrypt it, with the same key.")
ASSUME = ["nebari passes every block of a tree through the vault the tree was opened with, or else that of its Roots.", "XChaCha20Poly1305 is secure.",
          "The transaction log holds document ids, under the storage's default key only; backups are not encrypted (by design)."]
L = "bonsaidb_local::"
S = L + "storage::"
DB = L + "database::Database"
TV = S + "TreeVault"
V = L + "vault::"
VEP = V + "Vault::encrypt_payload"
TREE = "nebari::tree::root::Root::tree"
WITH = "nebari::tree::root::TreeRoot::<R, File>::with_vault"
CT = DB + "::collection_tree"
NEW = TV + "::new_if_needed"
CEK = DB + "::collection_encryption_key"
GET = S + "Storage::tree_vault"
DOC = ("document_tree_name", "view_versions_tree_name")
VIEWS = ("view_entries_tree_name", "view_document_map_tree_name", "view_invalidated_docs_tree_name")
SCH = "bonsaidb_core::schema::schematic::Schematic::"
OPQ = {SCH + "views_in_collection", SCH + "eager_views_in_collection"}
OPEN = L + "open_trees::OpenTrees::"


def check(ctx):
    names = {L + "database::document_tree_name", L + "database::view_document_map_tree_name"} | {L + "views::" + n for n in DOC + VIEWS} | {L + "database::" + n for n in DOC}
    TT = ctx.terms(opaque=OPQ | {TV + "::header", CT, NEW, CEK, GET, "bonsaidb_core::schema::view::Serialized::view_name", V + "Vault::encrypt_payload", V + "Vault::decrypt_payload", V + "EncryptionKey::encrypt_payload",
                           V + "EncryptionKey::decrypt_payload", V + "Vault::current_master_key", V + "EncryptionKey::key"} | names)
    sites = set()
    collection_tree(ctx, TT, sites)
    transaction_trees(ctx, TT)
    open_tree(ctx, TT, sites)
    document_change(ctx, TT)
    creations(ctx, TT, sites)
    pairs(ctx, TT)
    keys(ctx, TT)
    storage(ctx, TT)
    blocks(ctx, TT)
    cipher(ctx, TT)


def par(TT, b, t, i):
    out = []
    for a in alts(TT.norm(t)):
        a = strip(TT, a)
        r, f = fwd.unwrap(a)
        out.append(r.k == "par" and r.d[0] == b.h and r.d[1] == i and not [x for x in f if x not in ("*", "0")])
    return bool(out) and all(out)


def has(TT, t, p):
    """t is what the call of p returned (or part of it)"""
    return any(x.k == "call" and x.d[0] == p for x in TT.walk(TT.norm(t), 0))


def own_key(ctx, TT, b, t):
    """the key that was looked up, whenever there is one"""
    l, c = Prov(ctx, TT, b).of(t)
    return c <= {"collection_encryption_key", "operations", "next"} and "collection_encryption_key" in c


def hass(TT, t, n):
    return any(x.k == "call" and short(x.d[0]) == n for x in TT.walk(TT.norm(t), 0))


def preparing(TT, ctx, name):
    """shared steps: what vault is at hand on this path"""
    def step(ps, l, c, b, coll):
        w = c.where()
        if l == "key":
            ctx.ob(name + ":whose-key", coll(c.arg(1)), w, "the key is looked up for %s" % show(c.arg(1))[:60])
            return [(ps.set(key=1), {(): 1}), (ps.set(key=0), {(): 0})]
        if l == "setkey":
            if not (TT.norm(c.arg(0)).k == "fld" and TT.norm(c.arg(0)).d[1] == "key"):
                return None
            return [(ps.set(at="key" if own_key(ctx, TT, b, c.arg(1)) and ps.key == 1 else "wrong"), {})]
        if l == "default":
            return [(ps.set(default=1, at="default"), {(): 1}), (ps.set(default=0), {(): 0})]
        if l == "new":
            ok = own_key(ctx, TT, b, c.arg(0))
            ctx.ob(name + ":new-key", ok, w, "a vault is made for the key %s" % show(c.arg(0))[:60])
            if ps.key == 1 and ok:
                return [(ps.set(at="key", made=1), {(): 1})]
            return [(ps, {(): 0})]
        return None

    def assign(ps, st, place, rv, line, ex):
        if len(place) > 1 and isinstance(place[-1], tuple) and place[-1][0] == "f" and place[-1][2] == "key" and "TreeVault" in owner(st, place):
            t = TT.norm(ex.TT.op(st.fr, rv[1])) if rv[0] == "use" else TT.norm(TT.local(st.fr, place[0], tuple(place[1:])))
            ok = own_key(ctx, TT, ex.root.body, t) and ps.key == 1
            return ps.set(at="key" if ok else "wrong")
        if rv[0] == "agg" and rv[1] == "adt" and rv[2] == TV:
            o = dict(zip(rv[5], rv[6]))["key"]
            t = TT.norm(ex.TT.op(st.fr, o))
            return ps.set(at="key" if own_key(ctx, TT, ex.root.body, t) and ps.key == 1 else "wrong")
        return ps
    return step, assign


def owner(st, place):
    t = st.fr.body.locals[place[0]]
    return t.s if t is not None else ""


def expected(ps):
    return "key" if ps.key == 1 else ("default" if ps.default == 1 else None)


PS = dict(key=None, default=None, at=None, made=None, has=None, tree=None, given=None, n=0)


def collection_tree(ctx, TT, sites):
    b = ctx.F.body(CT) if CT in ctx.F.by_path else None
    if b is None:
        return ctx.fail("collection-tree", "", "function not found")
    common, assign = preparing(TT, ctx, "collection-tree")

    def step(ps, l, c):
        w = c.where()
        if l == "tree":
            sites.add((c.st.fr.body.h, c.bb))
            return [(ps.set(tree=1, has=None), {})]
        if l == "with":
            return [(ps.set(has=ps.at or "unknown"), {})]
        return common(ps, l, c, b, lambda t: par(TT, b, t, 2))

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("collection-tree:vault", ps.tree == 1 and ps.key is not None and (ps.key == 1 or ps.default is not None) and ps.has == expected(ps), ctx.where(b),
                   "with %s key and %s default vault, the tree of a collection is opened with %s" % ("a" if ps.key else "no", "a" if ps.default else "no", ps.has or "no vault"))
    proto.run(ctx, TT, b, "collection-tree", {"tree": [TREE], "with": [WITH], "key": [CEK], "setkey": ["core::option::Option::<T>::replace", "core::option::Option::<T>::insert"], "default": [GET], "new": [NEW]}, step, c11.rec(tuple(PS), **PS), need=("tree", "with", "key"), ret=ret, assign=assign,
              stop=lambda x: short(x.path) in ("storage",))


def transaction_trees(ctx, TT):
    b = ctx.F.body(DB + "::open_trees_for_transaction")
    common, assign = preparing(TT, ctx, "transaction")
    n = [0]

    def coll(t):
        return any(x.k == "fld" and x.d[1] == "collection" and any(y.k == "fld" and y.d[1] == "operations" for y in TT.walk(x, 0)) for x in TT.walk(TT.norm(t), 0)) and not Prov(ctx, TT, b).of(t)[1] - {"next"} and not [x for x in TT.walk(TT.norm(t), 0) if x.k == "call" and short(x.d[0]) in ("index", "first", "last", "get", "unwrap")]

    def step(ps, l, c):
        w = c.where()
        if l == "next":
            return [(ps.set(key=None, default=None, at=None), {(): 1}), (ps, {(): 0})]
        if l == "open":
            n[0] += 1
            ctx.ob("transaction:collection", coll(c.arg(1)), w, "trees are opened for %s" % show(c.arg(1))[:60])
            v = c.st.fr.body
            got = c.ex.opval(c.st.env, c.fr, c.args[3])
            some = (got or {}).get(())
            e = expected(ps)
            ctx.ob("transaction:looked-up", ps.key is not None and (ps.key == 1 or ps.default is not None), w, "trees are opened without the key of the collection or the default vault having been looked up")
            if e is None:
                ctx.ob("transaction:none", some != 1, w, "a vault is used although there is neither a key nor a default")
            else:
                ctx.ob("transaction:vault", some == 1 and ps.at == e, w, "with %s key and %s default vault, the trees of a changed document are opened with %s" % (
                    "a" if ps.key else "no", "a" if ps.default else "no", {1: ps.at, 0: "no vault"}.get(some, "an unknown vault")))
            return [(ps.set(given=1), {})]
        if l == "op":
            return None
        return common(ps, l, c, b, coll)
    proto.run(ctx, TT, b, "transaction", {"open": [OPEN + "open_trees_for_document_change"], "key": [CEK], "setkey": ["core::option::Option::<T>::replace", "core::option::Option::<T>::insert"], "default": [GET], "new": [NEW], "next": [proto.ITER]}, step, c11.rec(tuple(PS), **PS),
              need=("open", "key", "new", "default"), assign=assign, stop=lambda x: short(x.path) in ("storage", "collection_primary_key_description"))
    # the transaction itself is run over exactly these trees
    a = ctx.F.body(DB + "::apply_transaction_to_roots")
    m = 0
    for bb in [a] + list(ctx.F.children.get(a.h, ())):
        fr = TT.frame(bb, None, None)
        for i, blk in enumerate(bb.blocks):
            if blk is None or not blk[1] or blk[1][0] != "call":
                continue
            fn = getattr(blk[1][1][1] if isinstance(blk[1][1], tuple) else blk[1][1], "path", "")
            if fn == "nebari::roots::Roots::<File>::transaction":
                m += 1
                t = TT.norm(TT.op(fr, blk[1][2][1]))
                ctx.ob("transaction:trees", any(x.k == "call" and short(x.d[0]) == "open_trees_for_transaction" for x in TT.walk(t, 3)) or any(x.k == "fld" and x.d[1] == "trees" for x in TT.walk(t, 3)),
                       ctx.where(bb, blk[1][5]), "the transaction is run over %s" % show(t)[:80])
    ctx.floor("transactions", m, 1)


def open_tree(ctx, TT, sites):
    b = ctx.F.body(OPEN + "open_tree")
    for some in (0, 1):
        def step(ps, l, c, some=some):
            w = c.where()
            if l == "tree":
                sites.add((c.st.fr.body.h, c.bb))
                return [(ps.set(tree=1, has=None), {})]
            if l == "with":
                ctx.ob("open-tree:which", par(TT, b, c.arg(1), 3), w, "the vault used is %s" % show(c.arg(1))[:60])
                return [(ps.set(has=1), {})]
            if l == "push":
                if ps.tree:
                    ctx.ob("open-tree:vault", ps.has == (1 if some else None), w, "a tree is opened with%s vault although one was%s given" % ("out its" if not ps.has else " a", "" if some else " not"))
                    return [(ps.set(n=1), {})]
            return None
        proto.run(ctx, TT, b, "open-tree:%s" % ("vault" if some else "none"), {"tree": [TREE], "with": [WITH], "push": ["push", "insert"]}, step, c11.rec(tuple(PS), **PS), need=("tree", "push") + (("with",) if some else ()),
                  vals={3: {(): some}})


def document_change(ctx, TT):
    b = ctx.F.body(OPEN + "open_trees_for_document_change")

    def step(ps, l, c):
        t = c.arg(2)
        ctx.ob("document-change:vault", par(TT, b, t, 4), c.where(), "a tree of the collection is opened with the vault %s" % show(t)[:60])
        nm = TT.norm(c.arg(1))
        ok = True
        for one_of in alts(nm):
            d = [x for x in TT.walk(one_of, 0) if x.k == "call" and short(x.d[0]) in DOC + VIEWS]
            ok = ok and len(d) == 1 and (par(TT, b, d[0].d[1][0], 2) if short(d[0].d[0]) in DOC else views_of(TT, d[0].d[1][0], lambda u: par(TT, b, u, 2)))
        ctx.ob("document-change:tree", ok, c.where(), "the tree opened is %s" % show(nm)[:80])
        return [(ps.set(n=1), {})]
    r = proto.run(ctx, TT, b, "document-change", {"open": [OPEN + "open_tree"]}, step, c11.rec(tuple(PS), **PS), need=("open",))


def views_of(TT, t, coll):
    """a view (or its name) of the given collection"""
    for x in TT.walk(TT.norm(t), 0):
        if x.k == "call" and x.d[0] in OPQ and len(x.d[1]) > 1 and coll(x.d[1][1]):
            return True
    return False


def calls_of(ctx, paths):
    for h, b in ctx.F.bodies.items():
        if b.crate != "bonsaidb_local" if hasattr(b, "crate") else not b.path.lstrip("<").startswith("bonsaidb_local"):
            continue
        for i, blk in enumerate(b.blocks):
            if blk is None or not blk[1] or blk[1][0] != "call":
                continue
            fn = blk[1][1][1] if isinstance(blk[1][1], tuple) else blk[1][1]
            if getattr(fn, "path", None) in paths:
                yield b, i, blk[1], fn


def creations(ctx, TT, sites):
    """every description of a tree that is made"""
    n = 0
    for b, i, t, fn in calls_of(ctx, {TREE}):
        n += 1
        if (b.h, i) in sites:
            continue
        fr = TT.frame(b, None, None)
        nm = TT.norm(TT.op(fr, t[2][0]))
        ok = any(x.k == "str" and x.d[0] == "kv" or x.k == "con" and "KEY_TREE" in str(x.d[0]) for x in TT.walk(nm, 0)) or is_key_tree(TT, nm)
        ctx.ob("made:%s" % short(b.path), ok, ctx.where(b, t[5]), "the tree %s is opened without the encryption of its collection" % show(nm)[:60])
    ctx.floor("creations", n, 5)
    for b, i, t, fn in calls_of(ctx, {"nebari::tree::root::TreeRoot::<R, File>::with_vault"}):
        if short(b.path) not in ("collection_tree", "open_tree"):
            n += 1


def is_key_tree(TT, t):
    return "kv" in show(t) and not [x for x in TT.walk(t, 0) if x.k in ("par", "upv", "fld")]


def strip(TT, t):
    t = TT.norm(t)
    while t.k == "call" and short(t.d[0]) in fwd.CONV and t.d[1]:
        t = TT.norm(t.d[1][0])
    return t


def holder(TT, t, names):
    """the object that t is the field or accessor `names` of"""
    t = strip(TT, t)
    if t.k == "fld" and t.d[1] in names:
        return show(strip(TT, t.d[0]))
    if t.k == "call" and short(t.d[0]) in names and t.d[1]:
        return show(strip(TT, t.d[1][0]))
    return None


def pair(TT, coll, name):
    """whether the tree called `name` belongs to the collection `coll`"""
    d = [x for x in TT.walk(TT.norm(name), 0) if x.k == "call" and short(x.d[0]) in DOC + VIEWS]
    if len(d) != 1:
        return None
    if short(d[0].d[0]) in DOC:
        return show(strip(TT, d[0].d[1][0])) == show(strip(TT, coll))
    v = d[0].d[1][0]
    if views_of(TT, v, lambda u: show(strip(TT, u)) == show(strip(TT, coll))):
        return True
    h = holder(TT, v, ("view_name",))
    return h is not None and h == holder(TT, coll, ("collection",))


def pairs(ctx, TT):
    """trees are opened as those of the collection they belong to"""
    n = 0
    for b, i, t, fn in calls_of(ctx, {CT}):
        n += 1
        fr = TT.frame(b, None, None)
        coll, name = TT.op(fr, t[2][1]), TT.op(fr, t[2][2])

        def holds(fr):
            coll, name = TT.op(fr, t[2][1]), TT.op(fr, t[2][2])
            p = pair(TT, coll, name)
            if p is None:       # both are parts of one compaction target
                a, c = strip(TT, coll), strip(TT, name)
                p = a.k == "fld" and c.k == "fld" and show(a.d[0]) == show(c.d[0]) and (a.d[1], c.d[1]) == ("0", "1")
            return p
        p = proto.everywhere(ctx.F, TT, b, holds)
        ctx.ob("pair:%s" % short(b.path), p, ctx.where(b, t[5]), "the tree %s is opened with the encryption of %s" % (show(TT.norm(name))[:60], show(TT.norm(coll))[:50]))
    ctx.floor("collection trees", n, 10)
    m = k = 0
    for h, b in ctx.F.bodies.items():
        if not b.path.lstrip("<").startswith("bonsaidb_local") or "::clone" in b.path or "serde" in b.path:
            continue
        fr = None
        for i, blk in enumerate(b.blocks):
            if blk is None:
                continue
            for st in blk[0]:
                rv = st[1]
                if rv[0] != "agg" or rv[1] != "adt":
                    continue
                tail = rv[2].rsplit("::", 1)[-1]
                if tail == "Target" and len(rv[6]) == 2:
                    fr = fr or TT.frame(b, None, None)
                    m += 1
                    coll, name = TT.op(fr, rv[6][0]), TT.op(fr, rv[6][1])
                    ctx.ob("pair:target", pair(TT, coll, name), ctx.where(b, st[2]), "the tree %s is compacted with the encryption of %s" % (show(TT.norm(name))[:60], show(TT.norm(coll))[:50]))
                elif tail in ("Map", "IntegrityScan") and "collection" in rv[5] and "view_name" in rv[5]:
                    fr = fr or TT.frame(b, None, None)
                    k += 1
                    f = dict(zip(rv[5], rv[6]))
                    coll, name = TT.op(fr, f["collection"]), TT.op(fr, f["view_name"])
                    h1, h2 = holder(TT, coll, ("collection",)), holder(TT, name, ("view_name",))
                    ctx.ob("pair:job", h1 is not None and h1 == h2 or views_of(TT, name, lambda u: show(strip(TT, u)) == show(strip(TT, coll))), ctx.where(b, st[2]), "a job for the view %s works on the trees of %s" % (show(TT.norm(name))[:60], show(TT.norm(coll))[:60]))
    ctx.floor("compaction targets", m, 4)
    ctx.floor("view jobs", k, 2)


def keys(ctx, TT0):
    """the key of a collection"""
    TT = ctx.terms(opaque={"bonsaidb_core::schema::collection::Collection::encryption_key", "bonsaidb_core::schema::schematic::Schematic::encryption_key_for_collection", S + "StorageInstance::default_encryption_key", S + "Storage::default_encryption_key"})
    b = ctx.F.body(CEK)

    def step(ps, l, c):
        if l == "own":
            ctx.ob("key:collection", par(TT, b, c.arg(1), 2), c.where(), "the key looked for is that of %s" % show(c.arg(1))[:60])
            return [(ps.set(key=1), {(): 1}), (ps.set(key=0), {(): 0})]
        return [(ps.set(default=1), {(): 1}), (ps.set(default=0), {(): 0})]

    def ret(ps, val, st, ex):
        v = val.get(())
        if ps.key == 1:
            ctx.ob("key:own", v == 1 and ps.default is None, ctx.where(b), "the key of a collection that has one is not what is returned")
        else:
            ctx.ob("key:default", ps.key == 0 and ps.default is not None and v == ps.default, ctx.where(b), "the default key is not what is returned for a collection without one")
    proto.run(ctx, TT, b, "key", {"own": ["bonsaidb_core::schema::schematic::Schematic::encryption_key_for_collection"], "default": [S + "Storage::default_encryption_key"]}, step, c11.rec(("key", "default")),
              need=("own", "default"), ret=ret, stop=lambda x: short(x.path) == "schematic")
    # what is looked up is what definitions record
    e = ctx.F.body("bonsaidb_core::schema::schematic::Schematic::encryption_key_for_collection")
    t = TT.norm(TT.local(TT.frame(e, None, None), 0, ()))
    ctx.ob("key:lookup", all(x.k != "call" or short(x.d[0]) == "get" for x in [t]) and t.k == "call" and "collection_encryption_keys" in show(t.d[1][0]) and par(TT, e, t.d[1][1], 2), ctx.where(e), "the key of a collection is %s" % show(t)[:80])
    d = ctx.F.body("bonsaidb_core::schema::schematic::Schematic::define_collection")
    DN = "bonsaidb_core::schema::collection::Collection::collection_name"
    EK = "bonsaidb_core::schema::collection::Collection::encryption_key"

    found = []

    def dstep(ps, l, c):
        if l == "key":
            return [(ps.set(key=1), {(): 1}), (ps.set(key=0), {(): 0})]
        s = show(c.arg(0))
        if "collection_encryption_keys" in s:
            ctx.ob("define:entry", hass(TT, c.arg(1), "collection_name") and hass(TT, c.arg(2), "encryption_key"), c.where(), "the key %s is recorded for %s" % (show(c.arg(2))[:50], show(c.arg(1))[:50]))
            return [(ps.set(at=1), {})]
        if "contained_collections" in s or "VacantEntry" in c.path:
            return [(ps.set(n=1), {})]
        return None

    def dret(ps, val, st, ex):
        if ps.n:
            found.append(1)
            ctx.ob("define:key", ps.key is not None and bool(ps.at) == bool(ps.key), ctx.where(d), "a collection is defined %s" % ("without its key being recorded" if ps.key or ps.key is None else "with a key it does not have"))
    proto.run(ctx, TT, d, "define", {"key": [EK], "put": ["insert"]}, dstep, c11.rec(tuple(PS), **PS), need=("key", "put"), ret=dret, stop=lambda x: short(x.path) in ("define_views", "collection_name"))
    ctx.floor("collection definitions", len(found), 1)
    for p, f in ((S + "Storage::default_encryption_key", "default_encryption_key"), (GET, "tree_vault")):
        g = ctx.F.body(p)
        t = TT.norm(TT.local(TT.frame(g, None, None), 0, ()))
        ctx.ob("accessor:" + f, all(strip(TT, a).k == "fld" and strip(TT, a).d[1] == f or t.k == "call" and f in show(t) for a in alts(t)), ctx.where(g), "%s returns %s" % (short(p), show(t)[:60]))


def storage(ctx, TT):
    """the storage's own vault is made from the configuration, and every database is opened with it"""
    b = ctx.F.body(S + "Storage::open")
    n = 0
    for bb, i, t, fn in calls_of(ctx, {NEW}):
        if bb.h != b.h and bb.parent != b.h:
            continue
        n += 1
        fr = TT.frame(bb, None, None)
        k, comp = TT.norm(TT.op(fr, t[2][0])), TT.norm(TT.op(fr, t[2][2]))
        k, comp = strip(TT, k), strip(TT, comp)
        ctx.ob("storage:default-key", k.k == "fld" and k.d[1] == "default_encryption_key" and fwd.unwrap(k)[0].k == "par", ctx.where(bb, t[5]), "the default key is %s" % show(k)[:60])
        ctx.ob("storage:default-compression", comp.k == "fld" and comp.d[1] == "default_compression", ctx.where(bb, t[5]), "the default compression is %s" % show(comp)[:60])
    ctx.floor("default vaults", n, 1)
    for bb in [b] + list(ctx.F.children.get(b.h, ())):
        fr = TT.frame(bb, None, None)
        for blk in bb.blocks:
            for st in (blk[0] if blk else ()):
                rv = st[1]
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] == S + "Data":
                    f = dict(zip(rv[5], rv[6]))
                    t = TT.norm(TT.op(fr, f["tree_vault"]))
                    ctx.ob("storage:vault", has(TT, t, NEW), ctx.where(bb, st[2]), "the default vault kept is %s" % show(t)[:60])
                    t = strip(TT, TT.op(fr, f["default_encryption_key"]))
                    ctx.ob("storage:key", t.k == "fld" and t.d[1] == "default_encryption_key", ctx.where(bb, st[2]), "the default key kept is %s" % show(t)[:60])
    nb = ctx.F.body(NEW)
    for key in (0, 1):
        for comp in (0, 1):
            def nret(ps, val, st, ex, key=key, comp=comp):
                ctx.ob("new:%d%d" % (key, comp), val.get(()) == (1 if key or comp else 0), ctx.where(nb), "with %s key and %s compression, %s vault is made" % ("a" if key else "no", "a" if comp else "no", {0: "no", 1: "a"}.get(val.get(()), "maybe a")))
            proto.run(ctx, TT, nb, "new:%d%d" % (key, comp), {}, lambda ps, l, c: None, 0, ret=nret, vals={1: {(): key}, 3: {(): comp}})
    for x in TT.walk(TT.norm(TT.local(TT.frame(nb, None, None), 0, ())), 0):
        if x.k == "agg" and x.d[0] == TV:
            f = dict(x.d[2])
            ctx.ob("new:fields", par(TT, nb, f["key"], 1) and par(TT, nb, f["vault"], 2) and par(TT, nb, f["compression"], 3), ctx.where(nb), "the vault made is %s" % show(x)[:80])
    o = ctx.F.body(S + "StorageInstance::open_roots")

    def step(ps, l, c):
        if l == "vault":
            ctx.ob("roots:which", "tree_vault" in show(c.arg(1)), c.where(), "a database is opened with the vault %s" % show(c.arg(1))[:60])
            return [(ps.set(has=1), {})]
        if l == "open":
            ctx.ob("roots:vault", ps.key == 0 or ps.has == 1, c.where(), "a database is opened without the storage's vault")
            return [(ps.set(n=1), res_ok()), (ps, res_err())]
        return None

    def branch(ps, st, op, src, val, ex):
        t = ex.term(st, op)
        s = show(t)
        if "tree_vault" in s and t.k == "disc":
            return ps.set(key=1 if val == 1 else 0)
        return ps
    proto.run(ctx, TT, o, "roots", {"vault": ["nebari::roots::Config::<M>::vault"], "open": ["nebari::roots::Config::<M>::open"]}, step, c11.rec(tuple(PS), **PS), need=("vault", "open"), branch=branch)
    n = len([1 for _ in calls_of(ctx, {"nebari::roots::Config::<M>::open"})])
    ctx.ob("roots:only", n == 1, ctx.where(o), "databases are opened in %d places" % n)


def fidx(ctx, adt, name):
    return c16.fidx(ctx.F, adt, name)


def blocks(ctx, TT):
    enc = ctx.method(TV, "nebari::vault::Vault", "encrypt")
    dec = ctx.method(TV, "nebari::vault::Vault", "decrypt")
    if enc is None or dec is None:
        return
    K, C = fidx(ctx, TV, "key"), fidx(ctx, TV, "compression")
    HEAD = TV + "::header"
    for key in (0, 1):
        for comp in (0, 1):
            nm = "encrypt:%s%s" % ("key" if key else "plain", "+lz4" if comp else "")

            def step(ps, l, c, nm=nm, key=key, comp=comp):
                w = c.where()
                if l == "compress":
                    ctx.ob(nm + ":what", par(TT, enc, c.arg(0), 2), w, "what is compressed is %s" % show(c.arg(0))[:60])
                    return [(ps.set(z=1), {})]
                if l == "encrypt":
                    p = TT.norm(c.arg(2))
                    ctx.ob(nm + ":payload", any(x.k == "par" and x.d[0] == enc.h and x.d[1] == 2 for x in TT.walk(p, 0)), w, "what is encrypted is %s" % show(p)[:60])
                    ctx.ob(nm + ":key", "key" in show(c.arg(1)), w, "it is encrypted with %s" % show(c.arg(1))[:60])
                    ctx.ob(nm + ":late", not ps.marked, w, "the header is encrypted as well")
                    return [(ps.set(e=1), {(): 0, (("v", 0), ("f", 0)): 77}), (ps, res_err())]
                if l == "splice":
                    t = [TT.norm(c.arg(k)) for k in range(1, len(c.args))]
                    rg = [dict(x.d[2]) for y in t for x in TT.walk(y, 0) if x.k == "agg" and "start" in dict(x.d[2])]
                    ar = [[show(v) for _, v in x.d[2]] for y in t for x in TT.walk(y, 0) if x.k == "agg" and len(x.d[2]) == 4]
                    ctx.ob(nm + ":front", [(show(r["start"]), show(r["end"])) for r in rg] == [("0", "0")] and len(ar) == 1 and ar[0][:3] == ["116", "114", "118"] and any(x.k == "call" and x.d[0] == HEAD for y in t for x in TT.walk(y, 0)), w, "what is put in front of the block is %s" % [show(y)[:60] for y in t])
                    ctx.ob(nm + ":order", not key or ps.e, w, "the header is put before encrypting")
                    return [(ps.set(marked=1), {})]
                if l == "header":
                    v = c.ex.opval(c.st.env, c.fr, c.args[1]).get(())
                    ctx.ob(nm + ":header", v == (1 if ps.z else 0), w, "the header is made for %s data although it is %s" % ("uncompressed" if v == 0 else "compressed", "compressed" if ps.z else "not compressed"))
                    return [(ps, {(): (0x80 if key else 0) | (1 if ps.z else 0)})]
                return None

            def branch(ps, st, o, src, val, ex, key=key):
                t = TT.norm(ex.term(st, o))
                if t.k == "bin" and t.d[0] in ("Ne", "Eq") and any(strip(TT, y).k == "call" and strip(TT, y).d[0] == HEAD for y in t.d[1]):
                    if bool(val) == (t.d[0] == "Ne") and not (key or ps.z) or bool(val) != (t.d[0] == "Ne") and (key or ps.z):
                        return None         # whether a header is 0 is decided by `header`
                return ps

            def ret(ps, val, st, ex, nm=nm, key=key):
                if val.get(()) == 0:
                    t = TT.norm(ex.term(st, ("c", (0,))))
                    oks = [a for a in alts(t) if not (a.k == "agg" and a.d[1] == "Err")]
                    good = bool(oks) and all((VEP in (o := {x.d[0] for x in TT.walk(a, 0) if x.k == "call"})) == bool(key) and any(short(p) == "compress_prepend_size" for p in o) == bool(ps.z) for a in oks)
                    ctx.ob(nm + ":returned", good, ctx.where(enc), "a block with%s key that was%s compressed is stored as %s" % ("" if key else "out", "" if ps.z else " not", [show(a)[:80] for a in oks]))
                    if key:
                        ctx.ob(nm + ":encrypted", ps.e == 1, ctx.where(enc), "a block is returned as it is although there is a key")
                    else:
                        ctx.ob(nm + ":plain", ps.e is None, ctx.where(enc), "a block is encrypted without a key")
                    ctx.ob(nm + ":marked", bool(ps.marked) == bool(key or ps.z), ctx.where(enc), "a block is returned %s" % ("unmarked" if not ps.marked else "marked although nothing was done to it"))
            proto.run(ctx, TT, enc, nm, {"compress": ["lz4_flex::block::compress::compress_prepend_size", "compress_prepend_size"], "encrypt": [V + "Vault::encrypt_payload"], "splice": ["splice", "extend_from_slice", "insert"], "header": [HEAD]},
                      step, c11.rec(("z", "e", "marked")), ret=ret, branch=branch, vals={1: {(("f", K),): key, (("f", C),): comp}}, need=("header",) + (("encrypt",) if key else ()) + (("compress",) if comp else ()))
    header(ctx, TT, K, C)
    decrypt(ctx, TT, dec)


def header(ctx, TT, K, C):
    """the first bit says whether a block is encrypted, the others how it is compressed"""
    b = ctx.F.body(TV + "::header")
    for key in (0, 1):
        for z in (0, 1):
            for comp in (0, 1):
                nm = "header:%d%d%d" % (key, z, comp)

                def assign(ps, st, place, rv, line, ex):
                    s = str(rv)
                    if rv[0] == "use" and rv[1][0] == "k" and "Const(128)" in s:
                        return ps.set(e=1)
                    if rv[0] == "bin" and rv[1] == "BitOr":
                        t = [TT.norm(ex.TT.op(st.fr, o)) for o in rv[2:]]
                        if any(x.k == "con" and "128" in str(x.d[0]) for y in t for x in TT.walk(y, 0)) and "Const(128)" in s:
                            ps = ps.set(e=1)
                        if any("compression" in show(y) for y in t):
                            ps = ps.set(z=1)
                    return ps

                def ret(ps, val, st, ex, nm=nm, key=key, z=z, comp=comp):
                    ctx.ob(nm, bool(ps.e) == bool(key) and bool(ps.z) == bool(z and comp), ctx.where(b), "%s, %scompressed block has a header saying it is %s and %s" % (
                        "an encrypted" if key else "a plain", "" if z and comp else "un", "encrypted" if ps.e else "plain", "compressed" if ps.z else "not compressed"))
                proto.run(ctx, TT, b, nm, {}, lambda ps, l, c: None, c11.rec(("e", "z")), ret=ret, assign=assign, vals={1: {(("f", K),): key, (("f", C),): comp}, 2: {(): z}})


def decrypt(ctx, TT, b):
    def bit(t):
        """Ne/Eq of a masked header byte"""
        s = show(t)
        return "BitAnd" in s and "128" in s

    def branch(ps, st, o, src, val, ex):
        t = TT.norm(ex.term(st, o))
        if t.k == "bin" and t.d[0] in ("Ne", "Eq") and bit(t):
            zero = any(x.k == "con" and str(x.d[0]) == "0" for x in (TT.norm(y) for y in t.d[1]))
            e = bool(val) if t.d[0] == "Ne" else not val
            if not zero:
                e = not e
            return ps.set(e=1 if e else 0)
        return ps

    def step(ps, l, c):
        w = c.where()
        if l == "decrypt":
            p = TT.norm(c.arg(1))
            ok = any(x.k == "par" and x.d[0] == b.h and x.d[1] == 2 for x in TT.walk(p, 0))
            ctx.ob("decrypt:what", ok, w, "what is decrypted is %s" % show(p)[:60])
            ctx.ob("decrypt:when", ps.e != 0, w, "a block whose header says it is not encrypted is decrypted")
            return [(ps.set(done=1), res_ok()), (ps.set(bad=1), res_err())]
        if l == "kind":
            s = show(TT.norm(c.arg(0)))
            ctx.ob("decrypt:kind", "BitAnd" in s and "127" in s, w, "the compression is read from %s" % s[:60])
            return [(ps.set(z=1), {(): 1}), (ps.set(z=0), {(): 0})]
        if l == "expand":
            ctx.ob("decrypt:expand-order", ps.e == 0 or ps.done == 1, w, "a block is decompressed before it is decrypted")
            ctx.ob("decrypt:expand-when", ps.z == 1, w, "a block whose header says it is not compressed is decompressed")
            return [(ps.set(x=1), res_ok()), (ps, res_err())]
        return None

    def ret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("decrypt:done", ps.e == 0 or ps.done == 1, ctx.where(b), "an encrypted block is returned without having been decrypted")
            ctx.ob("decrypt:expanded", ps.z != 1 or ps.x == 1, ctx.where(b), "a compressed block is returned as it is")
            ctx.ob("decrypt:failed", not ps.bad, ctx.where(b), "a block that cannot be decrypted is returned all the same")
    proto.run(ctx, TT, b, "decrypt", {"decrypt": [V + "Vault::decrypt_payload"], "kind": ["from_u8"], "expand": ["decompress_size_prepended"]}, step, c11.rec(("e", "done", "bad", "z", "x")), need=("decrypt", "kind", "expand"),
              ret=ret, branch=branch)


def one(ctx, TT, b, paths):
    """the single call of one of `paths` in b (or its closures): its arguments as terms"""
    out = []
    for bb in [b] + list(ctx.F.children.get(b.h, ())):
        fr = TT.frame(bb, None, None)
        for i, blk in enumerate(bb.blocks):
            if blk is None or not blk[1] or blk[1][0] != "call":
                continue
            fn = blk[1][1][1] if isinstance(blk[1][1], tuple) else blk[1][1]
            if getattr(fn, "path", None) in paths or short(getattr(fn, "path", "")) in paths:
                out.append((bb, blk[1], [TT.norm(TT.op(fr, o)) for o in blk[1][2]]))
    return out


def cipher(ctx, TT0):
    F = ctx.F
    MK = {V + "Vault::current_master_key", V + "EncryptionKey::key", V + "EncryptionKey::encrypt_payload_with_nonce", V + "EncryptionKey::encrypt_payload", V + "EncryptionKey::decrypt_payload"}
    TT = ctx.terms(opaque=MK)
    # a fresh nonce for each payload, drawn from the thread's generator
    b = F.body(V + "EncryptionKey::encrypt_payload")
    c = one(ctx, TT, b, {V + "EncryptionKey::encrypt_payload_with_nonce"})
    ctx.floor("payload encryptions", len(c), 1)
    for bb, t, a in c:
        w = ctx.where(bb, t[5])
        rng = [x for x in TT.walk(a[4], 0) if x.k == "call" and short(x.d[0]) in ("gen", "fill", "fill_bytes", "random")]
        src = [x for x in TT.walk(a[4], 0) if x.k == "call" and short(x.d[0]) in ("thread_rng", "random") or "OsRng" in show(x)]
        ctx.ob("nonce:fresh", bool(rng) and bool(src) and not [x for x in TT.walk(a[4], 0) if x.k in ("con",) and x.d[0] not in ("()",) and "ThreadRng" not in show(x)], w, "the nonce is %s" % show(a[4])[:80])
        ctx.ob("nonce:payload", par(TT, b, a[3], 4) and par(TT, b, a[0], 1) and par(TT, b, a[1], 2) and par(TT, b, a[2], 3), w, "what is encrypted is %s" % show(a[3])[:60])
    m = [x for x in calls_of(ctx, {V + "EncryptionKey::encrypt_payload_with_nonce"})]
    ctx.ob("nonce:only", all(x[0].path == V + "EncryptionKey::encrypt_payload" for x in m), ctx.where(b), "a payload is encrypted with a chosen nonce elsewhere")
    e, d = F.body(V + "EncryptionKey::encrypt_payload_with_nonce"), F.body(V + "EncryptionKey::decrypt_payload")
    TT = ctx.terms(opaque=MK | LOSSY)
    AG = {"encrypt", "decrypt"}
    ce, cd = one(ctx, TT, e, AG), one(ctx, TT, d, AG)
    ctx.floor("cipher uses", len(ce) + len(cd), 2)

    def key_of(t):
        s = show(t)
        return "EncryptionKey::key" in s or "key(" in s or "key" in [short(x.d[0]) for x in TT.walk(t, 0) if x.k == "call"]
    for bb, t, a in ce:
        w = ctx.where(bb, t[5])
        ctx.ob("encrypt:own-key", any(x.k == "call" and x.d[0] == V + "EncryptionKey::key" and par(TT, e, x.d[1][0], 1) for x in TT.walk(a[0], 0)), w, "the cipher's key is %s" % show(a[0])[:80])
        ctx.ob("encrypt:nonce", par(TT, e, a[1], 5) or any(par(TT, e, x, 5) for x in TT.walk(a[1], 0)), w, "the cipher's nonce is %s" % show(a[1])[:80])
        ctx.ob("encrypt:message", any(x.k == "agg" and dict(x.d[2]).get("msg") is not None and par(TT, e, dict(x.d[2])["msg"], 4) for x in TT.walk(a[2], 0)), w, "the message is %s" % show(a[2])[:80])
    for bb, t, a in cd:
        w = ctx.where(bb, t[5])
        ctx.ob("decrypt:own-key", any(x.k == "call" and x.d[0] == V + "EncryptionKey::key" and par(TT, d, x.d[1][0], 1) for x in TT.walk(a[0], 0)), w, "the cipher's key is %s" % show(a[0])[:80])
        ctx.ob("decrypt:nonce", any(x.k == "fld" and x.d[1] == "nonce" and fwd.unwrap(x)[0].k == "par" for x in TT.walk(a[1], 0)), w, "the cipher's nonce is %s" % show(a[1])[:80])
        ms = [dict(x.d[2]).get("msg") for x in TT.walk(a[2], 0) if x.k == "agg" and dict(x.d[2]).get("msg") is not None]
        ctx.ob("decrypt:message", len(ms) == 1 and any(x.k == "fld" and x.d[1] == "payload" for x in TT.walk(TT.norm(ms[0]), 0)), w, "the message is %s" % show(a[2])[:80])
    # what is kept of it
    t = TT.norm(TT.local(TT.frame(e, None, None), 0, ()))
    ag = [x for x in TT.walk(t, 0) if x.k == "agg" and x.d[0] == V + "VaultPayload"]
    ok = len(ag) == 1
    if ok:
        f = dict(ag[0].d[2])
        ok = any(x.k == "call" and short(x.d[0]) == "encrypt" for x in TT.walk(TT.norm(f["payload"]), 0)) and Prov(ctx, TT, e).of(f["nonce"]) == ({"p5"}, set()) and par(TT, e, f["key_id"], 2) and par(TT, e, f["key_version"], 3)
    ctx.ob("payload:kept", ok, ctx.where(e), "what is stored of an encrypted payload is %s" % show(t)[:120])
    # the vault's own methods use the master key both ways
    ve, vd, vp = F.body(V + "Vault::encrypt_payload"), F.body(V + "Vault::decrypt"), F.body(V + "Vault::decrypt_payload")

    def vstep(b, pay):
        def step(ps, l, c):
            w = c.where()
            ctx.ob("vault:key:%s" % short(b.path), has(TT, c.arg(0), V + "Vault::current_master_key"), w, "the key used is %s" % show(c.arg(0))[:60])
            if l == "encrypt":
                ctx.ob("vault:payload", par(TT, b, c.arg(3), 3), w, "what is encrypted is %s" % show(c.arg(3))[:60])
                return [(ps.set(e=1), {})]
            ctx.ob("vault:payload", par(TT, b, c.arg(1), 2), w, "what is decrypted is %s" % show(c.arg(1))[:60])
            return [(ps.set(e=1), res_ok()), (ps.set(bad=1), res_err())]

        def ret(ps, val, st, ex):
            if val.get(()) == 0:
                ctx.ob("vault:done:%s" % short(b.path), ps.e == 1 and not ps.bad, ctx.where(b), "%s succeeds without the cipher having been used" % short(b.path))
        return step, ret
    for b in (ve, vd):
        s, r = vstep(b, None)
        proto.run(ctx, TT, b, "vault:%s" % short(b.path), {"encrypt": [V + "EncryptionKey::encrypt_payload"], "decrypt": [V + "EncryptionKey::decrypt_payload"]}, s, c11.rec(("e", "bad")), need=("encrypt" if b is ve else "decrypt",), ret=r)
    t = TT.norm(TT.local(TT.frame(ve, None, None), 0, ()))
    oks = [a for a in alts(t) if not (a.k == "agg" and a.d[1] == "Err")]
    ctx.ob("vault:returned", bool(oks) and all(any(x.k == "call" and x.d[0] == V + "EncryptionKey::encrypt_payload" for x in TT.walk(TT.norm(o), 1)) for o in oks), ctx.where(ve), "what encrypting returns is %s" % show(t)[:120])
    k = TT.norm(TT.local(TT.frame(F.body(V + "EncryptionKey::key"), None, None), 0, ()))
    ctx.ob("key:bytes", fwd.unwrap(strip(TT, k))[0].k == "par" or "par" in [x.k for x in TT.walk(k, 0)], "", "the bytes of a key are %s" % show(k)[:60])
    r = F.body(V + "EncryptionKey::random")
    k = TT.norm(TT.local(TT.frame(r, None, None), 0, ()))
    ctx.ob("key:random", "thread_rng" in show(k) or "OsRng" in show(k), ctx.where(r), "a new key is %s" % show(k)[:60])
    # a payload that is one is decrypted
    def pstep(ps, l, c):
        if l == "parse":
            return [(ps.set(e=1), res_ok()), (ps.set(e=0), res_err())]
        return [(ps.set(z=1), res_ok()), (ps.set(bad=1), res_err())]

    def pret(ps, val, st, ex):
        if val.get(()) == 0:
            ctx.ob("vault:parsed", ps.e == 0 or ps.z == 1 and not ps.bad, ctx.where(vp), "an encrypted payload is returned without having been decrypted")
    proto.run(ctx, TT, vp, "vault:decrypt_payload", {"parse": [V + "VaultPayload::<'a>::from_slice"], "decrypt": [V + "Vault::decrypt"]}, pstep, c11.rec(("e", "z", "bad")), need=("parse", "decrypt"), ret=pret)
