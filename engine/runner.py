"""Runs one property's check: obligations, known findings, evidence, verdict."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

import build  # noqa: E402
import facts as factsmod  # noqa: E402
import terms as termsmod  # noqa: E402
import explore  # noqa: E402


class Ctx:
    def __init__(self, pid, F, tier):
        self.pid, self.F, self.tier = pid, F, tier
        self.obls = []          # (key, ok, where, detail)
        self.counts = {}
        self.funcs = set()
        self.notes = []
        self.samples = []
        self.states = 0
        self._keys = {}

    def terms(self, **kw):
        return termsmod.Terms(self.F, **kw)

    def explorer(self, TT, rule, **kw):
        return explore.Explorer(self.F, TT, rule, **kw)

    def ob(self, key, ok, where="", detail=""):
        """One obligation. A key fails if any obligation recorded under it fails."""
        self.obls.append((key, bool(ok), where, detail))
        return ok

    def fail(self, key, where="", detail=""):
        self.ob(key, False, where, detail)

    def floor(self, name, n, least):
        """The number of instances of a rule found, against the number confirmed by hand."""
        self.counts[name] = n
        if n < least:
            self.fail("floor:%s" % name, "", "only %d %s found, %d were confirmed by hand" % (n, name, least))

    def need(self, path, crate=None):
        """A function the rule is anchored in."""
        b = self.F.body(path)
        if b is None:
            self.fail("anchor:%s" % path, "", "the function this rule is anchored in does not exist")
            return None
        self.funcs.add(b.path)
        return b

    def method(self, selfty, trait, name):
        b = self.F.method(selfty, trait, name)
        if b is None:
            self.fail("anchor:<%s as %s>::%s" % (selfty, trait, name), "", "the function this rule is anchored in does not exist")
            return None
        self.funcs.add(b.path)
        return b

    def needs(self, suffix, crate=None):
        """Anchor by path suffix; all bodies."""
        bs = self.F.find(suffix, crate)
        if not bs:
            self.fail("anchor:%s" % suffix, "", "no function matches the anchor of this rule")
        for b in bs:
            self.funcs.add(b.path)
        return bs

    def where(self, b, line=None):
        return "%s:%s (%s)" % (b.file, line or b.line, b.path)


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("status") == "known" and e["property"] == pid:
                for k in e["keys"]:
                    out[k] = e["what"]
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    d = build.facts_dir()
    F = factsmod.load(d)
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, F, tier)
    mod.check(ctx)
    kf = known(pid)
    bad, kn = {}, {}
    for key, ok, where, detail in ctx.obls:
        if ok:
            continue
        (kn if key in kf else bad).setdefault(key, []).append((where, detail))
    for key in sorted(kn):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kf[key], key))
    rp = os.path.join(ev, "%s.violations.txt" % pid)
    if os.path.exists(rp):
        os.remove(rp)
    keys = sorted(set(k for k, *_ in ctx.obls))
    cov = {
        "explanation": mod.EXPLAIN + " Deciding step: " + mod.RULE,
        "rule": mod.RULE,
        "obligations": len(keys),
        "discharged": len([k for k in keys if k not in bad and k not in kn]),
        "obligation_keys": keys,
        "instances": ctx.counts,
        "functions_analysed": len(ctx.funcs),
        "functions": sorted(ctx.funcs)[:400],
        "path_states_explored": ctx.states,
        "bodies_in_facts": len(F.bodies),
        "samples": [{"obligation": k, "ok": o, "where": w, "detail": dt} for k, o, w, dt in ctx.obls[:12]],
        "notes": ctx.notes,
    }
    json.dump({
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": mod.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }, open(os.path.join(ev, "%s.json" % pid), "w"), indent=1, default=str)
    if bad:
        with open(rp, "w") as f:
            for key in sorted(bad):
                f.write("%s\n" % key)
                for where, detail in bad[key][:6]:
                    f.write("    at %s\n    %s\n" % (where, detail))
        for key in sorted(bad):
            w, dt = bad[key][0]
            print("  %s: %s  %s" % (key, w, dt))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d states=%d (%.1fs)" % (
        pid, len(keys), len(ctx.funcs), ctx.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
