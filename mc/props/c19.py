"""C19 - intersection and merge cost models count what the hardware would do."""

import itertools

from fibertree import Fiber, Metrics, Tensor
from fibertree.model.compute import Compute
from fibertree.model.intersect import (LeaderFollowerIntersector,
                                       SkipAheadIntersector,
                                       TwoFingerIntersector)

from .. import model as M
from .. import trace as T
from ..core import Family, Violation, eq, require

RULE = ("Every sequence of operand pairs of the bound (all subsets of a small "
        "coordinate range: empty, disjoint, interleaved, identical) is "
        "intersected by the real operator in a nest of 1-3 ranks while "
        "collecting; the consumed traces are given to the three models with "
        "every batching of the fibers (fiber by fiber, in one shot, every "
        "split in between) and the counts are compared with an independent "
        "merge of the raw coordinate lists. numSwaps is run on every small "
        "tree x depth x radix x latency, with several payload assignments, "
        "against an independent simulation of the merge rounds.")
ASSUMPTIONS = [
    "an element is presented when it has been read: matched, passed over, or "
    "the head left over when the other operand ends",
    "a list of the swap model is a stored sub-fiber with stored elements; the "
    "radix is at least 2; a comparison count is one per inserted head plus one "
    "per head that precedes it (of equal coordinates, the one of the later "
    "list precedes)",
    "a batch ends where the intersection of a fiber pair ends",
]


# ---------------------------------------------------------------- oracles

def steps(a, b):
    """outcome of each comparison of a two-finger merge: <, > or ="""
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i] == b[j]:
            out.append("=")
            i, j = i + 1, j + 1
        elif a[i] < b[j]:
            out.append("<")
            i += 1
        else:
            out.append(">")
            j += 1
    return out, i, j


def two_finger(a, b):
    return len(steps(a, b)[0])


def skip_ahead(a, b):
    return sum((len(list(g)) if k == "=" else 1)
               for k, g in itertools.groupby(steps(a, b)[0]))


def presented(a, b):
    _, i, j = steps(a, b)
    return min(i + 1, len(a)), min(j + 1, len(b))


# ---------------------------------------------------------------- traces

def mk(coords):
    return mk_fiber([(c, 1) for c in coords])


def mk_fiber(items):
    f = Fiber([c for c, _ in items], [v for _, v in items], default=0)
    f.getRankAttrs().setId("K")
    return f


def outer(rank, n):
    f = Fiber([3 * i + 1 for i in range(n)], [1] * n)
    f.getRankAttrs().setId(rank)
    return f


def cuts(n):
    """every way to cut n fibers into consecutive batches"""
    for bits in itertools.product((0, 1), repeat=max(n - 1, 0)):
        yield tuple(i + 1 for i, b in enumerate(bits) if b) + (n,)


def collect(pairs, depth, isect, points):
    """the traces of the two operands, consumed after the fibers in points"""
    Metrics.beginCollect()
    try:
        for i in (0, 1):
            Metrics.trace("K", f"intersect_{i}", consumable=True)
        batches = []
        done = 0

        def take():
            batches.append([list(Metrics.consumeTrace("K", f"intersect_{i}"))
                            for i in (0, 1)])
        if depth == 1:
            for _ in isect(*pairs[0]):
                pass
            take()
        elif depth == 2:
            for (j, _), (a, b) in zip(outer("J", len(pairs)), pairs):
                for _ in isect(a, b):
                    pass
                done += 1
                if done in points:
                    take()
        else:
            it = iter(pairs)
            n = (len(pairs) + 1) // 2
            for i, _ in outer("I", n):
                for j, _ in outer("J", 2 if done + 2 <= len(pairs) else 1):
                    a, b = next(it)
                    for _ in isect(a, b):
                        pass
                    done += 1
                    if done in points:
                        take()
    finally:
        Metrics.endCollect()
    return batches


def feed(model, batches, which):
    for b in batches:
        model.addTraces(*[b[i] for i in which])
    return model.getNumIntersects()


def land(a, b):
    return a & b


def ck_nest(case, rec):
    """the fibers come from two tensors whose outer ranks are intersected (and
    traced) too; batched per outer element or in one shot"""
    lists, _, style = case
    ts = []
    for i in (0, 1):
        spec = tuple((j, tuple((c, 1 + c) for c in p[i]))
                     for j, p in enumerate(lists) if p[i])
        ts.append(M.mk_tensor(spec, 2, [len(lists), 8], 0, ["J", "K"]))
    outer_lists = [tuple(j for j, p in enumerate(lists) if p[i])
                   for i in (0, 1)]
    both = [p for p in lists if p[0] and p[1]]
    for each in (False, True):
        m = {r: (TwoFingerIntersector(), SkipAheadIntersector(),
                 LeaderFollowerIntersector(), LeaderFollowerIntersector())
             for r in "JK"}

        def take(r):
            b = [list(Metrics.consumeTrace(r, f"intersect_{i}"))
                 for i in (0, 1)]
            m[r][0].addTraces(*b)
            m[r][1].addTraces(*b)
            m[r][2].addTraces(b[0])
            m[r][3].addTraces(b[1])
        Metrics.beginCollect()
        try:
            for r in "JK":
                for i in (0, 1):
                    Metrics.trace(r, f"intersect_{i}", consumable=True)
            for j, (a, b) in ts[0].getRoot() & ts[1].getRoot():
                for _ in a & b:
                    pass
                if each:
                    take("K")
            take("J")
            take("K")
        finally:
            Metrics.endCollect()
        rec.step()
        for r, want in (("J", [outer_lists]), ("K", both)):
            for x, f in zip(m[r], (two_finger, skip_ahead,
                                   lambda a, b: presented(a, b)[0],
                                   lambda a, b: presented(a, b)[1])):
                eq(x.getNumIntersects(), sum(f(*p) for p in want),
                   f"{case} rank {r}, {'per fiber' if each else 'one shot'}: "
                   f"{type(x).__name__}")
        rec.ok()
    rec.state(case)


def ck_isect(case, rec):
    lists, depth, style = case
    if style == "nest":
        return ck_nest(case, rec)
    isect = land
    if style == "lf":
        def isect(a, b):
            return Fiber.intersection(a, b, style="leader-follower")
    if style == "zeros":        # explicit defaults between the elements
        pairs = [tuple(mk_fiber([(c, 1 if c in x else 0) for c in range(4)])
                       for x in p) for p in lists]
    elif style == "chain":      # the right operand is itself an intersection
        def isect(a, b):
            c = mk_fiber([(x, 1) for x in range(8)])
            return a & (b & c)
        pairs = [(mk(a), mk(b)) for a, b in lists]
    else:
        pairs = [(mk(a), mk(b)) for a, b in lists]
    n = len(lists)
    for points in ([(1,)] if depth == 1 else some_cuts(n) if n > 12 else
                   cuts(n)):
        b = collect(pairs, depth, isect, points)
        rec.step()
        w = f"{case} batches end after fibers {points}"
        if style == "lf":
            want = sum(len(a) for a, _ in lists)
            for i in (0, 1):
                eq(feed(LeaderFollowerIntersector(), b, (i,)), want,
                   f"{w}: leader-follower on operand {i}")
            continue
        eq(feed(TwoFingerIntersector(), b, (0, 1)),
           sum(two_finger(*p) for p in lists), f"{w}: two-finger")
        eq(feed(TwoFingerIntersector(), b, (1, 0)),
           sum(two_finger(*p) for p in lists), f"{w}: two-finger, swapped")
        eq(feed(SkipAheadIntersector(), b, (0, 1)),
           sum(skip_ahead(*p) for p in lists), f"{w}: skip-ahead")
        eq(feed(SkipAheadIntersector(), b, (1, 0)),
           sum(skip_ahead(*p) for p in lists), f"{w}: skip-ahead, swapped")
        for i in (0, 1):
            eq(feed(LeaderFollowerIntersector(), b, (i,)),
               sum(presented(*p)[i] for p in lists),
               f"{w}: leader-follower on operand {i}")
        rec.ok()
    rec.state(case)
    rec.outcome((tuple(two_finger(*p) for p in lists),
                 tuple(skip_ahead(*p) for p in lists)))


def subsets(n):
    return [tuple(c for c in range(n) if m >> c & 1) for m in range(1 << n)]


def gen_isect(full):
    for style in ("and", "zeros", "lf", "chain"):
        for p in itertools.product(subsets(4), repeat=2):
            yield (p,), 1, style
            if style != "zeros":
                yield (tuple(tuple(2 * c + 1 for c in x) for x in p),), 2, style
    for p in itertools.product(subsets(7 if full else 6), repeat=2):
        yield (p,), 1, "and"
    pairs = list(itertools.product(subsets(3), repeat=2))
    for p in itertools.product(pairs, repeat=2):
        yield p, 2, "and"
        yield p, 2, "nest"
        yield p, 2, "chain"
        if full:
            yield p, 2, "lf"
    small = list(itertools.product(subsets(2), repeat=2))
    for p in itertools.product(small, repeat=3):
        for d in (2, 3):
            yield p, d, "and"
        yield p, 2, "lf"
        yield p, 2, "nest"
        if full:
            yield p, 3, "chain"
            yield p, 3, "lf"
    if full:
        for p in itertools.product(pairs, repeat=3):
            yield p, 3 if len(p[0][0]) % 2 else 2, "and"
    # empty, disjoint, interleaved, identical, prefix, left over on each side
    kinds = [((), ()), ((0, 1), ()), ((), (0, 1)), ((0, 2), (1, 3)),
             ((0, 1), (0, 1)), ((0,), (0, 1)), ((0, 1), (0,)),
             ((0, 1, 2), (2,)), ((1,), (0, 1, 2))]
    for n in ((4, 5) if full else (4,)):
        for p in itertools.product(kinds if n == 4 else kinds[:7], repeat=n):
            yield p, 2 if n == 5 else 3, "and"


def gen_isect_large(full):
    """fibers of tens to hundreds of elements, many fibers"""
    def pat(n):
        return [tuple(range(n)), tuple(range(0, n, 2)), tuple(range(1, n, 2)),
                tuple(range(0, n, 3)), tuple(range(n // 2)),
                tuple(range(n // 2, n)), (0, n - 1), (n - 1,), (),
                tuple(c for c in range(n) if c // 9 % 2),
                tuple(c for c in range(n) if not c // 7 % 2)]
    for n in (20, 70, 150) + ((1200,) if full else ()):
        for a in pat(n):
            for b in pat(n):
                yield ((a, b),), 1, "and"
                yield ((a, b),), 1, "lf"
    for n, m in ((20, 30), (9, 70)) + (((60, 70),) if full else ()):
        ps = pat(n)
        for k in range(1, 12):
            lists = tuple((ps[i % 11], ps[i * k % 11]) for i in range(m))
            for st in ("and", "lf", "nest"):
                yield lists, 2, st
            yield lists, 3, "and"


def some_cuts(n):
    """a few ways to cut n fibers into consecutive batches"""
    return [(n,), tuple(range(1, n + 1)), tuple(range(3, n, 7)) + (n,),
            (n // 2, n), (1, n)]


def ck_abandon(case, rec):
    """nothing collected, a rank that is never iterated, an outer loop without
    iterations: empty batches do not count"""
    nempty, lists, where = case
    models = [TwoFingerIntersector(), SkipAheadIntersector(),
              LeaderFollowerIntersector()]
    Metrics.beginCollect()
    for i in (0, 1):
        Metrics.trace("K", f"intersect_{i}", consumable=True)

    def take():
        b = [list(Metrics.consumeTrace("K", f"intersect_{i}")) for i in (0, 1)]
        models[0].addTraces(*b)
        models[1].addTraces(*b)
        models[2].addTraces(b[0])
    try:
        for (j, _), p in zip(outer("J", len(lists)), lists):
            for _ in range(nempty if where == "before" else 0):
                take()
            if p is not None:
                for _ in mk(p[0]) & mk(p[1]):
                    pass
            take()
            for _ in range(nempty if where == "after" else 0):
                take()
    finally:
        take()
        Metrics.endCollect()
    rec.step()
    real = [p for p in lists if p is not None]
    for m, f in zip(models, (two_finger, skip_ahead,
                             lambda a, b: presented(a, b)[0])):
        eq(m.getNumIntersects(), sum(f(*p) for p in real),
           f"{case}: {type(m).__name__}")
    rec.ok()
    rec.state(case)


def gen_abandon(full):
    opt = [None, ((), ()), ((0, 1), (1,)), ((), (1,)), ((0,), (1, 2))]
    for n in range(5 if full else 4):
        for lists in itertools.product(opt, repeat=n):
            for where in ("before", "after"):
                for e in (0, 1, 2):
                    yield e, lists, where


# ---------------------------------------------------------------- swaps

def swaps(lists, radix, lat):
    lists = [sorted(x) for x in lists]
    cost = 0
    while len(lists) > 1:
        r = len(lists) if radix in ("N", None) else min(radix, len(lists))
        new = []
        for i in range(0, len(lists), r):
            group = lists[i:i + r]
            if lat == "N":
                c, merged = insertion(group)
            else:
                c = lat * (len(group) + sum(map(len, group)))
                merged = sorted(x for g in group for x in g)
            cost += c
            new.append(merged)
        lists = new
    return cost


def insertion(group):
    """comparisons of a merge that keeps the heads in order"""
    cost, heads, out = 0, [], []
    at = [0] * len(group)

    def enter(i):
        nonlocal cost
        if at[i] == len(group[i]):
            return
        c = group[i][at[i]]
        at[i] += 1
        cost += 1 + sum(1 for d, k in heads if d < c or (d == c and k > i))
        heads.append((c, i))
    for i in range(len(group)):
        enter(i)
    while heads:
        c, i = min(heads, key=lambda h: (h[0], -h[1]))
        heads.remove((c, i))
        out.append(c)
        enter(i)
    return cost, out


def expected(raw, depth, level, radix, lat):
    if level > 0:
        return sum(expected(s, depth, level - 1, radix, lat) for _, s in raw)
    return swaps([[c for c, _ in s] for _, s in raw if s], radix, lat)


RADII = (2, 3, 4, "inf", "N")
LATS = (0, 1, 3, "N")


def ck_swaps(case, rec):
    depth, shape, spec, values, fmt = case
    ids = ["M", "N", "K"][:depth]
    for vals in values:
        sp = revalue(spec, depth, vals, [0])
        t = M.mk_tensor(sp, depth, list(shape), 0, ids, fmt)
        raw = M.raw_t(t)
        for level in range(depth - 1):
            for radix in RADII:
                for lat in LATS:
                    r = float("inf") if radix == "inf" else radix
                    got = Compute.numSwaps(t, level, r, lat)
                    rec.step()
                    eq(got, expected(raw, depth, level,
                                     None if radix == "inf" else radix, lat),
                       f"numSwaps of {sp} at depth {level}, radix {radix}, "
                       f"latency {lat}")
                    rec.outcome((got, radix, lat))
        eq(M.raw_t(t), raw, f"{case}: tree after numSwaps")
        e = M.mirror_error(t)
        require(not e, "{}: after numSwaps: {}", case, e)
        rec.ok()
    rec.state((spec, fmt))


def revalue(spec, depth, vals, n):
    out = []
    for c, s in spec:
        if depth > 1:
            out.append((c, revalue(s, depth - 1, vals, n)))
        else:
            out.append((c, vals[n[0] % len(vals)]))
            n[0] += 1
    return tuple(out)


def gen_swaps(full):
    v = M.linval
    vals = ((1,), (0,), (5, 0, 2), (0, -1))
    for s in M.specs((3, 3), v((3, 3)), explicit=False):
        yield 2, (3, 3), s, vals if full else vals[:3], None
    for s in M.specs((5, 2), v((5, 2)), explicit=False, empties=False):
        if full or len(s) > 3:
            yield 2, (5, 2), s, ((1,),), None
    for s in M.specs((2, 3), v((2, 3)), explicit=False):
        for f in (("U", "U"), ("U", "C"), ("C", "U")):
            yield 2, (2, 3), s, vals[:3], f
    for s in M.specs((2, 2, 2), v((2, 2, 2)), explicit=False):
        yield 3, (2, 2, 2), s, vals if full else vals[:3], None
    # many lists: several rounds with groups of unequal length
    rows = [(0, 1, 2), (1,), (0, 3), (2,), (1, 2, 3), (0,), (3,)]
    for n in range(2, 8):
        for p in itertools.permutations(rows[:4] if not full else rows[:5],
                                        min(n, 4)):
            p = (p + p)[:n]
            yield 2, (7, 4), tuple((i, tuple((c, 1) for c in r))
                                   for i, r in enumerate(p)), ((1,), (2, 3)), \
                None


def gen_swaps_large(full):
    """tens of lists, lists of tens of elements"""
    for m, n in ((9, 8), (17, 5), (33, 12), (65, 3), (3, 70), (2, 150)) + \
            (((130, 20),) if full else ()):
        for k in range(1, 7):
            spec = tuple((i, tuple((c, 1) for c in range(n)
                                   if (c * k + i * (k + 1)) % (k + 1) <
                                   1 + i % 3)) for i in range(m))
            yield 2, (m, n), spec, ((1,), (5, 0, 2)), None
            spec = tuple((i, tuple((c, 1) for c in range(
                i * k % n, min(n, i * k % n + 1 + i % 5)))) for i in range(m))
            yield 2, (m, n), spec, ((1,),), None
    for s in M.lattice((3, 12, 5), lambda p: 1 + p[0])[::2]:
        yield 3, (3, 12, 5), s, ((1,),), None


def families(tier):
    full = tier == "thorough"
    return [
        Family("intersect", lambda: gen_isect(full), ck_isect,
               "all operand pairs over <= 6 coordinates, all sequences of 2 "
               "pairs over 3 coordinates, of 3 pairs over 2, of 4 pairs of 9 "
               "kinds, x every batching; two-finger and leader-follower "
               "operators, explicit defaults, a lazy operand"),
        Family("batches", lambda: gen_abandon(full), ck_abandon,
               "empty batches, iterations without intersection"),
        Family("large", lambda: gen_isect_large(full), ck_isect,
               "fibers of 20 to 150 elements (thorough: 1200) in 11 patterns, "
               "up to 70 pairs of fibers, batches"),
        Family("large-swaps", lambda: gen_swaps_large(full), ck_swaps,
               "9 to 65 lists of up to 150 elements"),
        Family("swaps", lambda: gen_swaps(full), ck_swaps,
               "all trees over 3x3, 5x2, 2x2x2 and up to 7 lists x depths x "
               "radix 2, 3, 4, unbounded x latency 0, 1, 3, unbounded x "
               "payload assignments with explicit defaults x rank formats"),
    ]
