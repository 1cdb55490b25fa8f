"""Shared: what a value is made from (parameters, their fields, constants) and through which calls."""
from terms import short
import fwd

# calls that hand on what they are given, and fields and constructors that only wrap
NEUT = set(fwd.CONV) | set("map transpose ok_or ok_or_else and_then map_err collect take builder size_hint with_capacity default from_iter as_mut".split())
NOISE = {"Pending", "state", "Serialized", "Collection", "Executing", "Err"}
WRAP = {"Ok", "Some", "Err", "Borrowed", "Owned"}
KEEP = {"Sort", "AccessPolicy", "Command", "QueryKey", "KeyCheck", "Option", "PendingValue", "Bound", "BoundRef", "RangeFull"}
SELECT = ("filter", "filter_map", "skip", "take_while", "skip_while", "step_by", "dedup", "dedup_by_key", "truncate", "flat_map", "flatten", "rev", "last", "nth", "pop", "take", "unique", "unique_by", "dedup_by", "dedup_by_with_count", "dedup_with_count", "while_some", "filter_ok", "filter_map_ok", "duplicates", "duplicates_by", "positions", "step", "retain", "map_while")



SWALLOW = ("ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "is_err", "map_or", "map_or_else", "ok_or")       # of a Result: the error is gone


LOSSY = {"core::result::Result::<T, E>::" + x for x in SWALLOW if x != "ok_or"} | {"core::iter::traits::iterator::Iterator::rev", "collect"}      # opaque: so that they are seen


def swallowed(calls):
    return sorted(c for c in calls if c.startswith("swallowed:"))


def inner(ctx, TT, t, depth=0):
    """the terms of t, and of what the closures in it return"""
    for x in TT.walk(TT.norm(t), 3):
        yield x
        if x.k == "clo" and depth < 4 and x.x is not None:
            fr = TT.frame(ctx.F.bodies[x.x[0]], x.x[1], None, tuple((x.x[1], o) for o in x.x[2]), ("prov",))
            yield from inner(ctx, TT, TT.local(fr, 0, ()), depth + 1)


class Prov:
    """what a term is made from: parameters, their fields, constants; and the calls it went through"""

    def __init__(self, ctx, TT, b):
        self.ctx, self.TT, self.b = ctx, TT, b

    def of(self, t, depth=0):
        F, TT, b = self.ctx.F, self.TT, self.b
        leaves, calls = set(), set()
        for x in TT.walk(TT.norm(t), 0):
            if x.k == "clo":
                if depth < 4 and x.x is not None:
                    fr = TT.frame(F.bodies[x.x[0]], x.x[1], None, tuple((x.x[1], o) for o in x.x[2]), ("prov",))
                    l, c = self.of(TT.local(fr, 0, ()), depth + 1)
                    leaves |= l
                    calls |= c
            elif x.k == "call":
                n = short(x.d[0])
                g = TT.gathered(x) if depth < 4 else None
                if g is None or n != "new":
                    calls.add(n)
                if g is not None:
                    l, c = self.of(g, depth + 1)
                    leaves |= l
                    calls |= c | ({"passed over"} if TT.selective(x) else set())
                if n in SWALLOW and "result::Result" in x.d[0]:
                    calls.add("swallowed:" + n)
                if n == "collect" and x.x and any("Set<" in a.s for a in x.x[0].args[-1:]):
                    calls.add("swallowed:duplicates")
            elif x.k == "fn":
                calls.add(short(x.d[0]))
            elif x.k in ("par", "upv"):
                if x.d[0] == b.h:
                    leaves.add("p%d" % x.d[1] if x.k == "par" else "u%d" % x.d[1])
            elif x.k == "con":
                leaves.add(str(x.d[0])[:40])
            elif x.k == "str":
                leaves.add('"%s"' % x.d[0][:30])
            elif x.k == "agg":
                n = x.d[0].rsplit("::", 1)[-1]
                if x.d[1] not in WRAP and n in KEEP and n != x.d[1]:
                    leaves.add("%s" % x.d[1])
            elif x.k == "fld" and not x.d[1].isdigit() and x.d[1] not in WRAP | NOISE:
                leaves.add("." + x.d[1])
            elif x.k in ("bin", "un"):
                leaves.add(x.d[0])
        return leaves, calls - NEUT - WRAP


def want(s):
    """'p1 .range / new map_result' -> (leaves, calls)"""
    l, _, c = s.partition("/")
    return set(l.split()), set(c.split())
