"""C08: splitting partitions content losslessly, each element in its place."""

import itertools

from fibertree import Fiber, Payload, Tensor

from ..core import Family, Violation, eq, require
from .. import model as M

RULE = ("every fiber over the bounded shape x every split kind, step / "
        "boundary list / size list, halo pair, relative setting, active range "
        "and depth; nested re-splits of either level; compared with an "
        "interval-membership model, per partition: start, elements, payloads, "
        "active range")
ASSUMPTIONS = [
    "elements below the first boundary of splitNonUniform are not in any "
    "partition (pinned by the existing tests)",
    "uncompressed ranks may hand explicit defaults to the partitions; the "
    "non-empty elements are compared",
    "an element outside the active range but within the halo of the active "
    "range belongs to the partitions whose clipped and extended interval "
    "contains it"]


# ---------------------------------------------------------------- the model

class F:
    """model fiber: elements (c, sub) with sub a value or an F; active range"""

    def __init__(self, elems, active):
        self.elems, self.active = elems, active

    def __repr__(self):
        return f"F{self.active}{self.elems}"


def lift(spec, d, default, shapes, actives):
    """Model of a stored fiber; actives: per level override or None"""
    act = actives[0] if actives[0] is not None else (0, shapes[0])
    if d == 1:
        return F([(c, v) for c, v in spec], act)
    return F([(c, lift(s, d - 1, default, shapes[1:], actives[1:]))
              for c, s in spec], act)


def empty(s, default):
    if isinstance(s, F):
        return all(empty(x, default) for _, x in s.elems)
    return s == default


def present(f, default):
    return [(c, s) for c, s in f.elems if not empty(s, default)]


def partition(f, default, bounds, pre, post, rel):
    """bounds: ascending starts; the last interval ends at the end of the
    active range"""
    lo, hi = f.active
    out = []
    for i, b in enumerate(bounds):
        e = bounds[i + 1] if i + 1 < len(bounds) else None
        if e is not None and e <= lo:
            continue
        if b >= hi:
            continue
        a0 = max(b, lo)
        a1 = hi if e is None else min(e, hi)
        if pre or post:
            els = [(c, s) for c, s in present(f, default)
                   if a0 - pre <= c < a1 + post]
        else:
            els = [(c, s) for c, s in present(f, default) if a0 <= c < a1]
        if not els:
            continue
        if rel:
            els = [(c - b, s) for c, s in els]
            a0, a1 = a0 - b, a1 - b
        out.append((b, F(els, (a0, a1))))
    up = f.active
    if out and out[0][0] < up[0]:
        up = (out[0][0], up[1])
    return F(out, up)


def bounds_of(f, default, kind, arg):
    lo, hi = f.active
    act = [c for c, _ in present(f, default) if lo <= c < hi]
    if kind == "uniform":
        return list(range(lo // arg * arg, hi, arg))
    if kind == "nonuniform":
        return list(arg)
    out = [lo] if act else []
    if kind == "equal":
        out += act[arg::arg]
    else:
        i = 0
        for s in arg:
            i += s
            if i >= len(act):
                break
            out.append(act[i])
    return out


def split_model(f, default, op):
    kind, arg, pre, post, rel, depth = op
    if depth:
        return F([(c, split_model(s, default, op[:5] + (depth - 1,)))
                  for c, s in f.elems if not empty(s, default)], f.active)
    if kind == "div":
        n = len(arg)
    return partition(f, default, bounds_of(f, default, kind, arg), pre, post,
                     rel)


# ---------------------------------------------------------------- the code

def split_code(x, op, rankid=None):
    kind, arg, pre, post, rel, depth = op
    kw = dict(relativeCoords=rel, pre_halo=pre, post_halo=post)
    if rankid is not None:
        kw["rankid"] = rankid
    else:
        kw["depth"] = depth
    if kind == "uniform":
        return x.splitUniform(arg, **kw)
    if kind == "nonuniform":
        return x.splitNonUniform(list(arg), **kw)
    if kind == "equal":
        return x.splitEqual(arg, **kw)
    return x.splitUnEqual(list(arg), **kw)


def compare(got, want, default, what, exact=True, path=(), active=True):
    """live fiber got against model want (non-empty elements)"""
    pres = [(c, p) for c, p in zip(got.coords, got.payloads)
            if not code_empty(p, default)]
    if exact:
        eq(list(got.coords), [c for c, _ in want.elems],
           f"{what}: coordinates at {path}")
    eq([c for c, _ in pres], [c for c, s in want.elems
                              if not empty(s, default)],
       f"{what}: non-empty coordinates at {path}")
    if active:
        eq(tuple(got.getActive()), tuple(want.active),
           f"{what}: active range at {path}")
    if not exact:
        w = [(c, s) for c, s in want.elems if not empty(s, default)]
        g = pres
    else:
        w, g = want.elems, list(zip(got.coords, got.payloads))
    for (c, s), (_, p) in zip(w, g):
        if isinstance(s, F):
            require(isinstance(p, Fiber), "{}: {!r} at {}", what, p,
                    path + (c,))
            compare(p, s, default, what, exact, path + (c,),
                    active if exact else False)
        else:
            require(isinstance(p, Payload) and p.value == s,
                    "{}: payload {!r} at {}, expected {!r}", what, p,
                    path + (c,), s)


def code_empty(p, default):
    if isinstance(p, Fiber):
        return all(code_empty(q, default) for q in p.payloads)
    return M.unbox(p) == default


def build(key, spec):
    depth, S, kind, default, fmt, act, auth = key
    shape = [S] + [2] * (depth - 1)
    if kind == "tensor":
        x = M.mk_tensor(spec, depth, shape if auth else None, default,
                        fmts=[fmt] * depth, fiber_shape=auth)
        f = x.getRoot()
    else:
        x = f = M.mk_fiber(spec, depth, default, shape if auth else None)
        if fmt != "C":
            f.getRankAttrs().setFormat(fmt)
    if act is not None:
        f.setActive(act)
    return x, f


def model(key, spec):
    depth, S, kind, default, fmt, act, auth = key
    shape = [S] + [2] * (depth - 1)
    if not auth:
        shape = est(spec, depth)
    return lift(spec, depth, default, shape, [act] + [None] * (depth - 1))


def est(spec, depth):
    """Shape of a level estimated from its largest coordinate (unused levels
    get 0)"""
    lv = M.fibers_of(spec, depth)
    return [max([c + 1 for f in fs for c, _ in f] or [0]) for fs in lv]


def root(x):
    return x.getRoot() if isinstance(x, Tensor) else x


def judge(key, spec, ops, rec, rankids=False, tiles=False):
    """Run the sequence of splits on code and model"""
    depth, S, kind, default, fmt, act, auth = key
    x, f = build(key, spec)
    before = M.snap(x)
    what = f"{kind} {spec!r} fmt={fmt} act={act} default={default}: {ops!r}"
    m = model(key, spec)
    y = x
    for op in ops:
        rid = y.getRankIds()[op[5]] if rankids else None
        y = split_code(y, op, rid)
        m = split_model(m, default, op)
        rec.step()
    if isinstance(y, Tensor):
        M.check_tensor(y, what)
    elif present(m, default):
        M.check_fiber(y, what)
    exact = fmt == "C" and all(o[5] == 0 for o in ops)
    compare(root(y), m, default, what, exact,
            active=exact or (fmt == "C" and auth))
    require(M.snap(x) == before, "{}: the original was changed", what)
    rec.state((key, spec, ops))
    rec.outcome(repr(m))
    rec.ok()
    return y


# ---------------------------------------------------------------- checks

def chk_ops(case, rec):
    """Default iteration of an uncompressed fiber presents its active range
    only, so halos outside of it are not part of its elements"""
    key, spec, kind, quick = case
    S = key[1]
    act = key[5]
    for arg in args(kind, S, quick):
        for pre, post in HALOS if quick else \
                itertools.product(range(3), repeat=2):
            if (pre or post) and key[4] == "U" and act is not None:
                continue        # see chk_ops.__doc__
            for rel in (False, True):
                judge(key, spec, ((kind, arg, pre, post, rel, 0),), rec)


HALOS = ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2))


def args(kind, S, quick=False):
    if kind == "uniform":
        return range(1, S + 2)
    if kind == "nonuniform":
        return [s for n in range(0, 4)
                for s in itertools.combinations(range(S + 2), n)]
    if kind == "equal":
        return range(1, S + 1)
    return [()] + [s for n in (1, 2, 3)
                   for s in itertools.product((1, 2) if quick else (1, 2, 3),
                                              repeat=n)]


def chk_div(case, rec):
    """f / n and f // n"""
    key, spec, n = case
    depth, S, kind, default, fmt, act, auth = key
    x, f = build(key, spec)
    before = M.snap(x)
    what = f"{kind} {spec!r} act={act}: "
    m = model(key, spec)
    shape = S if auth else est(spec, depth)[0]
    y = x / n
    rec.step(2)
    step = -(-shape // n)
    w = split_model(m, default, ("uniform", step, 0, 0, False, 0)) if step \
        else F([], m.active)
    compare(root(y), w, default, f"{what}/ {n}", fmt == "C",
            active=fmt == "C")
    # in position space: chunks of one size, the remainder last, at most n
    y = x // n
    els = [(c, s) for c, s in present(m, default)
           if m.active[0] <= c < m.active[1]]
    parts = [(c, [e for e, q in zip(p.coords, p.payloads)
                  if not code_empty(q, default)])
             for c, p in zip(root(y).coords, root(y).payloads)
             if not code_empty(p, default)]
    eq([c for _, p in parts for c in p], [c for c, _ in els],
       f"{what}// {n}: elements in order")
    sizes = [len(p) for _, p in parts]
    require(len(sizes) <= n and len(set(sizes[:-1])) <= 1 and
            (not sizes or sizes[-1] <= sizes[0]),
            "{}// {}: chunk sizes {}", what, n, sizes)
    stored = len(spec)
    if stored == len(els) and els:
        size = -(-stored // n)
        eq(sizes[0], min(size, len(els)), f"{what}// {n}: chunk size")
    if sizes:
        w = split_model(m, default, ("equal", max(sizes), 0, 0, False, 0))
        compare(root(y), w, default, f"{what}// {n}", fmt == "C",
                active=fmt == "C")
    if isinstance(x, Tensor):
        M.check_tensor(y, what + "//")
    require(M.snap(x) == before, "{}the original was changed", what)
    rec.state((key, spec, n))
    rec.ok(2)


def chk_nest(case, rec):
    """Splits of splits, in both levels"""
    key, spec, op1 = case
    depth, S = key[0], key[1]
    for d2 in (op1[5], op1[5] + 1):
        for kind, arg in (("uniform", 1), ("uniform", 2), ("uniform", 3),
                          ("nonuniform", (0, 2, 3)), ("nonuniform", (0, 1)),
                          ("equal", 1), ("equal", 2), ("unequal", (1, 2)),
                          ("unequal", (2,))):
            for rel in (False, True):
                for pre, post in ((0, 0), (1, 1)):
                    if (pre or post) and (op1[2] or op1[3]):
                        continue
                    judge(key, spec, (op1, (kind, arg, pre, post, rel, d2)),
                          rec)


def chk_nest3(case, rec):
    """Three-level tilings without halos: both re-splits of both levels"""
    key, spec, k1 = case
    ops = [("uniform", 4), ("uniform", 2), ("uniform", 3),
           ("nonuniform", (0, 1, 4)), ("equal", 2), ("unequal", (1, 3))]
    for k2, k3 in itertools.product(ops, repeat=2):
        for d2, d3 in ((0, 0), (1, 0), (1, 2), (0, 2), (1, 1)):
            judge(key, spec, ((k1[0], k1[1], 0, 0, False, 0),
                              (k2[0], k2[1], 0, 0, False, d2),
                              (k3[0], k3[1], 0, 0, False, d3)), rec)


def chk_deep(case, rec):
    key, spec, depth = case
    for kind, arg in (("uniform", 1), ("uniform", 2), ("uniform", 3),
                      ("nonuniform", (0, 1)), ("nonuniform", (0, 2)),
                      ("nonuniform", (1,)), ("equal", 1), ("equal", 2),
                      ("unequal", (1,)), ("unequal", (2, 1))):
        for pre, post in ((0, 0), (1, 0), (0, 1), (1, 2)):
            for rel in (False, True):
                y = judge(key, spec, ((kind, arg, pre, post, rel, depth),),
                          rec)
                if key[2] == "tensor" and not pre and not post:
                    z = judge(key, spec,
                              ((kind, arg, 0, 0, rel, depth),), rec, True)
                    require(M.raw_t(z) == M.raw_t(y),
                            "{!r}: rankid= and depth= differ", case)


def chk_tuple(case, rec):
    """Position-space splits of tuple coordinates"""
    spec, default = case
    pts = [(0, 0), (0, 2), (1, 1), (2, 0)]
    f = Fiber([pts[i] for i, _ in spec], [v for _, v in spec],
              default=default, shape=(3, 3))
    els = [(pts[i], v) for i, v in spec if v != default]
    ops = [("equal", n) for n in (1, 2, 3, 4)] + \
        [("unequal", s) for n in (1, 2)
         for s in itertools.product((1, 2), repeat=n)]
    lo, hi = f.getActive()
    for kind, arg in ops:
        y = split_code(f, (kind, arg, 0, 0, False, 0))
        cuts = [0]
        if kind == "equal":
            cuts += list(range(arg, len(els), arg))
        else:
            for s in arg:
                if cuts[-1] + s < len(els):
                    cuts.append(cuts[-1] + s)
                else:
                    break
        want = []
        for i, a in enumerate(cuts):
            b = cuts[i + 1] if i + 1 < len(cuts) else len(els)
            if a < b:
                want.append((lo if i == 0 else els[a][0], els[a:b]))
        what = f"tuple fiber {f.coords}: {kind} {arg}"
        got = [(c, [(k, M.unbox(v)) for k, v in zip(p.coords, p.payloads)])
               for c, p in zip(y.coords, y.payloads)]
        eq(got, want, what)
        for i, (c, p) in enumerate(zip(y.coords, y.payloads)):
            nxt = want[i + 1][0] if i + 1 < len(want) else hi
            eq(tuple(p.getActive()), (c, nxt), what + ": active range")
        rec.step()
        rec.ok()
    rec.state(case)


def chk_byfiber(case, rec):
    """The boundary list given as a fiber"""
    spec, cuts = case
    key = K(1, 4)
    x, _ = build(key, spec)
    b = Fiber(list(cuts), [1] * len(cuts))
    y1 = x.splitNonUniform(b)
    y2 = x.splitNonUniform(list(cuts))
    eq(M.raw(y1), M.raw(y2), f"{spec!r}: splitNonUniform by fiber {cuts}")
    eq(M.raw(b), tuple((c, 1) for c in cuts), "boundary fiber changed")
    compare(y1, split_model(model(key, spec), 0,
                            ("nonuniform", cuts, 0, 0, False, 0)), 0,
            f"{spec!r} by fiber {cuts}")
    rec.step(2)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def val(pt):
    return (10, -11, 12.5, 13)[pt[-1] % 4]


def dspecs(depth, S, default):
    """depth 2/3 trees with explicit defaults and empty sub-fibers"""
    if depth == 1:
        return M.specs((S,), val, default)
    if depth == 2:
        low = [(), ((0, default),), ((1, 11),), ((0, 10), (1, 11)),
               ((0, default), (1, 11))]
    else:
        low = [(), ((0, ()),), ((0, ((0, default),)),),
               ((0, ((1, 11),)),), ((0, ((0, 10),)), (1, ())),
               ((0, ()), (1, ((0, 10), (1, 11)))),
               ((0, ((0, 10), (1, 11))), (1, ((0, default), (1, 11))))]
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*[[None] + [(c, s) for s in low]
                                             for c in range(S)])]


def K(depth=1, S=4, kind="fiber", default=0, fmt="C", act=None, auth=True):
    return (depth, S, kind, default, fmt, act, auth)


def families(tier):
    q = tier == "quick"
    S = 4 if q else 5
    acts = [(0, 2), (1, 3), (1, 4), (2, 4), (3, 4), (1, 6)]
    keys = [K(1, S), K(1, S, "tensor", 3), K(1, S, auth=False)] + \
        [K(1, S, act=a) for a in acts] + \
        [K(1, S, "tensor", 0, "U"), K(1, S, "fiber", 2, "U", (1, 3))]
    if not q:
        keys += [K(1, 6)]

    def one(kinds):
        def g():
            for k in keys:
                for kind in kinds:
                    for s in dspecs(1, k[1], k[3]):
                        yield (k, s, kind, q)
        return g
    out = [Family("uniform", one(["uniform"]), chk_ops,
                  f"depth 1, shape {S}, all steps, halos 0..2 x 0..2, "
                  "relative or not, 11 active range/format/default settings"),
           Family("nonuniform", one(["nonuniform"]), chk_ops,
                  "all boundary lists of up to 3 starts, halos up to 2"),
           Family("equal", one(["equal", "unequal"]), chk_ops,
                  "all chunk sizes; all size lists of length <= 3, halos up to 2")]

    def longs():
        for k in [K(1, 12), K(1, 12, "tensor", 3), K(1, 12, act=(2, 9)),
                  K(1, 12, auth=False)]:
            for s in M.wide(12, val, k[3]):
                for kind in ("uniform", "equal", "unequal"):
                    yield (k, s, kind, True)
                for n in range(1, 14):
                    yield (k, s, n)
    out.append(Family("long", longs, lambda case, rec: (
        chk_ops if len(case) == 4 else chk_div)(case, rec),
        "26 long fibers over 12 coordinates, all steps and sizes"))

    # sizes far beyond the small bounds
    def large():
        n = 140 if q else 700
        far = [("uniform", a, 0, 0) for a in (1, 2, 9, 64, 65, 100, n)]
        far += [("uniform", a, *h) for a in (5, 70) for h in
                ((1, 0), (0, 1), (70, 0), (0, 70), (70, 70))]
        far += [("nonuniform", a, *h) for a in
                (tuple(range(0, n, 2)), tuple(range(3, n, 11)), (0, 66, 67),
                 tuple(i * i for i in range(12))) for h in ((0, 0), (3, 66))]
        far += [("equal", a, 0, 0) for a in (1, 3, 33, 65, n)]
        far += [("unequal", a, 0, 0) for a in
                ((1,) * 70, (3, 66), tuple(range(1, 16)), (40,))]
        for k in [K(1, n), K(1, n, "tensor", 3), K(1, n, act=(n // 3, n - 2)),
                  K(1, n, auth=False), K(1, n, fmt="U"),
                  K(2, n, "tensor")]:
            v = val if k[0] == 1 else None
            for s in M.wide(n, val, k[3])[:8] + M.wide(n, val, k[3])[-5:]:
                if k[0] == 2:
                    s = tuple((c, ((c % 2, x),)) for c, x in s)
                for kind, a, pre, post in far:
                    for rel in (False, True):
                        yield (k, s, ((kind, a, pre, post, rel, 0),))
    out.append(Family("large", large, lambda case, rec: judge(*case, rec)
                      and None, "140 coordinates (thorough: 700), steps, "
                      "boundary lists, chunk sizes and halos up to the whole "
                      "fiber"))

    def largediv():
        n = 140 if q else 700
        for k in [K(1, n), K(1, n, "tensor", 3), K(1, n, act=(n // 3, n - 2)),
                  K(1, n, auth=False)]:
            for s in M.wide(n, val, k[3]):
                for parts in (1, 2, 3, 7, 64, 65, n, n + 5):
                    yield (k, s, parts)
    out.append(Family("large-div", largediv, chk_div, "the same, / and // by "
                      "1..n+5"))

    def dv():
        for k in keys + [K(1, 5)]:
            for s in dspecs(1, k[1], k[3]):
                for n in range(1, k[1] + 2):
                    yield (k, s, n)
    out.append(Family("div", dv, chk_div, "division shorthands, 1..S+1 "
                      "partitions"))

    def nest():
        for k in [K(1, 5), K(1, 4 if q else 5, act=(1, 4)),
                  K(1, 3 if q else 4, "tensor", 3),
                  K(1, 3 if q else 4, "tensor", 0, "U")]:
            for s in M.specs((k[1],), val, k[3],
                             explicit=not q or k[1] < 5):
                for kind, arg in (("uniform", 2), ("uniform", 3),
                                  ("nonuniform", (0, 3)),
                                  ("nonuniform", (0, 1, 2)), ("equal", 2),
                                  ("unequal", (1, 2))):
                    for rel in (False, True):
                        yield (k, s, (kind, arg, 0, 0, rel, 0))
                        if not rel:
                            yield (k, s, (kind, arg, 1, 1, rel, 0))
    out.append(Family("resplit", nest, chk_nest, "re-split of the upper and "
                      "of the lower level by 9 further splits"))

    def nest3():
        for k in [K(1, 6), K(1, 6, act=(1, 5))]:
            for s in M.specs((6,), val, 0, explicit=False):
                for k1 in (("uniform", 4), ("uniform", 3),
                           ("nonuniform", (0, 1, 3))):
                    yield (k, s, k1)
    out.append(Family("tiling3", nest3, chk_nest3, "three nested splits, "
                      "shape 6"))

    def deep():
        ks = [K(2, 3, "tensor"), K(2, 3, "fiber"), K(2, 3, "tensor", 3),
              K(2, 3, "tensor", 0, "U"), K(3, 2, "tensor"), K(3, 2)]
        if not q:
            ks += [K(3, 3, "tensor"), K(2, 4, "tensor")]
        for k in ks:
            for s in dspecs(k[0], k[1], k[3]):
                for d in range(k[0]):
                    yield (k, s, d)
    out.append(Family("deep", deep, chk_deep, "trees of depth 2 and 3, split "
                      "at every depth, by depth and by rank id"))

    def tp():
        for d in (0, 3):
            for s in M.specs((4,), lambda p: 10 + p[0], d):
                yield (s, d)
    out.append(Family("tuple", tp, chk_tuple, "position-space splits of tuple "
                      "coordinates"))

    def bf():
        for s in dspecs(1, 4, 0):
            for c in args("nonuniform", 4):
                yield (s, c)
    out.append(Family("byfiber", bf, chk_byfiber, "boundaries from a fiber"))
    return out
