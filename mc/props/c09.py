"""C09 - rank transforms move every point to its image and nothing else."""

import itertools
from functools import reduce

from fibertree import Fiber, Payload, Tensor

from .. import model as M
from ..core import Family, Violation, eq, require

RULE = ("Every swizzle, swap, flatten, unflatten, merge and split+flatten is "
        "executed on every tree of the bound; the content of the result is "
        "compared with the image of the operand's content under the stated "
        "coordinate map, the result is checked for well-formedness and rank "
        "bookkeeping, every point is read back, and the inverse transform is "
        "applied and compared.")
ASSUMPTIONS = [
    "merge functions used with several levels, or on operands whose sub-fibers "
    "are merged, are associative and commutative (sum, product of distinct "
    "primes, max)",
    "linear flattening is used on operands with an authoritative shape",
]

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
IDS = ["M", "N", "K", "J", "I"]


def val(shape):
    lin = M.linval(shape, 0, True)
    # never one of the defaults in use (0, 3)
    ps = [p for p in PRIMES if p != 3] + [59]
    return lambda pt: ps[lin(pt)]


def plain(r):
    """Raw content of a live tree; depth-independent"""
    return r.getRoot() if isinstance(r, Tensor) else r


def build(key, spec):
    depth, shape, kind, default, fmts, auth = key
    if kind == "fiber":
        return M.mk_fiber(spec, depth, default, shape if auth else None)
    t = M.mk_tensor(spec, depth, shape=shape if auth else None,
                    default=default, rank_ids=IDS[:depth], fmts=fmts,
                    name="T", fiber_shape=auth)
    return t


def verify(r, want, depth, default, what, read=True):
    """The live result r has exactly the content want, is well-formed"""
    if isinstance(r, Tensor):
        eq(len(r.getRankIds()), depth, f"{what}: number of ranks")
        M.check_tensor(r, what, depth)
    else:
        M.check_fiber(r, what, depth)
    got = M.code_content(plain(r), default)
    if got != want:
        raise Violation(f"{what}: content {got!r}, expected {want!r} "
                        f"(tree {M.raw(plain(r))!r})")
    if read:
        for pt, v in want.items():
            g = M.unbox(r.getPayload(*pt))
            if g != v:
                raise Violation(f"{what}: getPayload{pt!r} is {g!r}, "
                                f"expected {v!r}")


# ---------------------------------------------------------------- images

def comb(cs, style, shape):
    """The stated combination of the coordinates cs of merged ranks"""
    if style == "tuple":
        out = ()
        for c in cs:
            out += c if isinstance(c, tuple) else (c,)
        return out
    if style == "pair":
        c = cs[-1]
        for x in reversed(cs[:-1]):
            c = (x, c)
        return c
    if style == "linear":
        v = 0
        for c, s in zip(cs, shape):
            v = v * s + c
        return v
    if style == "absolute":
        return cs[-1]
    if style == "relative":
        return sum(cs)
    raise KeyError(style)


def img_merge(cont, d, lv, style, shape, fn=None):
    groups = {}
    for pt, v in sorted(cont.items()):
        c = comb(pt[d:d + lv + 1], style, shape[d:d + lv + 1])
        groups.setdefault(pt[:d] + (c,) + pt[d + lv + 1:], []).append(v)
    if fn is None:
        for k, v in groups.items():
            assert len(v) == 1
        return {k: v[0] for k, v in groups.items()}
    return {k: fn(v) if len(v) > 1 else v[0] for k, v in groups.items()}


def img_perm(cont, perm):
    return {tuple(pt[i] for i in perm): v for pt, v in cont.items()}


FNS = {"sum": (None, sum),
       "prod": (lambda ps: reduce(lambda a, b: a * b,
                                  [Payload.get(p) for p in ps]),
                lambda vs: reduce(lambda a, b: a * b, vs)),
       "max": (lambda ps: max(Payload.get(p) for p in ps), max),
       "count": (lambda ps: 100 + len(ps), lambda vs: 100 + len(vs))}


def untouched(t, before, what):
    if M.raw(plain(t)) != before:
        raise Violation(f"{what}: the operand changed to "
                        f"{M.raw(plain(t))!r}")


# ---------------------------------------------------------------- checks

def chk_swizzle(case, rec):
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    ids = IDS[:depth]
    t = build(key, spec)
    for perm in itertools.permutations(range(depth)):
        new = [ids[i] for i in perm]
        what = f"{spec!r} swizzleRanks({new})"
        r = t.swizzleRanks(list(new))
        rec.step()
        verify(r, img_perm(cont, perm), depth, default, what)
        eq(r.getRankIds(), new, f"{what}: rank ids")
        untouched(t, spec, what)
        b = r.swizzleRanks(list(ids))
        rec.step()
        verify(b, cont, depth, default, f"{what} and back", read=False)
        require(b == t and t == b, "{}: swizzled back is not equal", what)
        rec.ok(2)
        rec.outcome(M.raw(plain(r)))
    for d in range(depth - 1):
        perm = list(range(depth))
        perm[d], perm[d + 1] = perm[d + 1], perm[d]
        what = f"{spec!r} swapRanks(depth={d})"
        r = t.swapRanks(depth=d)
        rec.step()
        verify(r, img_perm(cont, perm), depth, default, what)
        untouched(t, spec, what)
        b = r.swapRanks(depth=d)
        rec.step()
        verify(b, cont, depth, default, f"{what} and back", read=False)
        require(b == t and t == b, "{}: swapped back is not equal", what)
        s = t.swizzleRanks([ids[i] for i in perm])
        require(s == r and r == s, "{}: differs from the swizzle", what)
        rec.step()
        rec.ok(2)


def chk_fiber(case, rec):
    """Fiber-level forms on unowned trees"""
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    f = build(key, spec)

    def go(what, op, want, dep, *a, **k):
        what = f"{spec!r} {what}"
        r = op(*a, **k)
        rec.step()
        verify(r, want, dep, default, what)
        untouched(f, spec, what)
        rec.ok()
        return r
    perm = [1, 0] + list(range(2, depth))
    if spec:
        # (the method is documented to need a coordinate at the top)
        r = go("swapRanks()", f.swapRanks, img_perm(cont, perm), depth)
        if r.coords:
            go("swapRanks() twice", r.swapRanks, cont, depth)
    for d in range(depth - 1):
        for lv in range(1, depth - d):
            for style in ("tuple", "pair") + (("linear",) if auth else ()):
                w = f"flattenRanks({d}, {lv}, {style})"
                r = go(w, f.flattenRanks, img_merge(cont, d, lv, style, shape),
                       depth - lv, depth=d, levels=lv, style=style)
                if style != "linear" and d == 0:
                    go(w + " unflattened", r.unflattenRanks, cont, depth,
                       levels=lv)
            for style in ("absolute", "relative"):
                for fn in ("prod", "sum"):
                    code, mod = FNS[fn]
                    go(f"mergeRanks({d}, {lv}, {style}, {fn})", f.mergeRanks,
                       img_merge(cont, d, lv, style, shape, mod), depth - lv,
                       depth=d, levels=lv, style=style, merge_fn=code)
    # the in-place forms below the top rank
    for d in range(depth - 2):
        perm = list(range(depth))
        perm[d + 1], perm[d + 2] = perm[d + 2], perm[d + 1]
        for name, args, want, dep in (
                ("swapRanksBelow", {}, img_perm(cont, perm), depth),
                ("flattenRanksBelow", {},
                 img_merge(cont, d + 1, 1, "tuple", shape), depth - 1)):
            g = build(key, spec)
            getattr(g, name)(depth=d, **args)
            rec.step()
            verify(g, want, dep, default, f"{spec!r} {name}(depth={d})")
            rec.ok()
            if name == "flattenRanksBelow":
                g.unflattenRanksBelow(depth=d)
                verify(g, cont, depth, default,
                       f"{spec!r} unflattenRanksBelow(depth={d})")
                rec.step()
                rec.ok()


def chk_flatten(case, rec):
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    t = build(key, spec)
    for d in range(depth - 1):
        for lv in range(1, depth - d):
            for style in ("tuple", "pair", "linear"):
                if style == "linear" and not auth:
                    continue
                what = f"{spec!r} flattenRanks({d}, {lv}, {style})"
                r = t.flattenRanks(depth=d, levels=lv, coord_style=style)
                rec.step()
                verify(r, img_merge(cont, d, lv, style, shape), depth - lv,
                       default, what)
                untouched(t, spec, what)
                rec.ok()
                rec.outcome(M.raw(plain(r)))
                if style == "linear":
                    continue
                for k in range(1, lv + 1):
                    if k < lv and style == "tuple":
                        # partial unflattening peels ranks off one at a time
                        pass
                    u = r.unflattenRanks(depth=d, levels=k)
                    rec.step()
                    w = f"{what} unflattenRanks({d}, {k})"
                    if k == lv:
                        verify(u, cont, depth, default, w)
                        require(u == t and t == u, "{}: not equal", w)
                        eq(u.getRankIds(), t.getRankIds(), f"{w}: rank ids")
                    else:
                        verify(u, img_merge(cont, d + k, lv - k, style, shape),
                               depth - lv + k, default, w)
                    rec.ok()


def chk_merge(case, rec):
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    t = build(key, spec)
    for d in range(depth - 1):
        for lv in range(1, depth - d):
            for style in ("absolute", "relative"):
                fns = ["sum", "prod", "max"]
                if lv == 1:
                    fns.append("count")
                for fn in fns:
                    code, mod = FNS[fn]
                    what = f"{spec!r} mergeRanks({d}, {lv}, {style}, {fn})"
                    r = t.mergeRanks(depth=d, levels=lv, coord_style=style,
                                     merge_fn=code)
                    rec.step()
                    want = img_merge(cont, d, lv, style, shape, mod)
                    verify(r, {k: v for k, v in want.items() if v != default},
                           depth - lv, default, what)
                    untouched(t, spec, what)
                    rec.ok()
                    rec.outcome(M.raw(plain(r)))
            # merging without collisions is flattening
            r = t.mergeRanks(depth=d, levels=lv)
            rec.step()
            verify(r, img_merge(cont, d, lv, "tuple", shape), depth - lv,
                   default, f"{spec!r} mergeRanks({d}, {lv})")
            rec.ok()


SPLITS = [("uniform", 1), ("uniform", 2), ("nonuniform", (0, 1)),
          ("nonuniform", (0, 2)), ("equal", 1), ("equal", 2),
          ("unequal", (1, 1)), ("unequal", (2,))]


def do_split(t, s, d):
    k, a = s
    if k == "uniform":
        return t.splitUniform(a, depth=d)
    if k == "nonuniform":
        return t.splitNonUniform(list(a), depth=d)
    if k == "equal":
        return t.splitEqual(a, depth=d)
    return t.splitUnEqual(list(a), depth=d)


def chk_split(case, rec):
    """flatten(absolute) undoes a split; so do two of them a double split"""
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    t = build(key, spec)
    for d in range(depth):
        for s in SPLITS:
            what = f"{spec!r} split {s!r} depth {d} flattened"
            r0 = do_split(t, s, d)
            r = r0.flattenRanks(depth=d, levels=1, coord_style="absolute")
            rec.step(2)
            verify(r, cont, depth, default, what)
            require(r.getRoot() == t.getRoot(), "{}: not equal", what)
            rec.ok()
            if s[0] in ("uniform", "equal"):
                r2 = do_split(r0, ("uniform", 1), d + 1)
                f2 = r2.flattenRanks(depth=d, levels=2, coord_style="absolute")
                rec.step(2)
                verify(f2, cont, depth, default, f"{what}, twice")
                rec.ok()
                # swizzling a split tensor and back
                ids = r0.getRankIds()
                new = ids[:d] + [ids[d + 1], ids[d]] + ids[d + 2:]
                sw = r0.swizzleRanks(new)
                rec.step()
                perm = list(range(depth + 1))
                perm[d], perm[d + 1] = perm[d + 1], perm[d]
                c0 = M.code_content(r0.getRoot(), default)
                verify(sw, img_perm(c0, perm), depth + 1, default,
                       f"{what}: split then swizzled to {new}")
                rec.ok()


HALOS = [(1, 0), (0, 1), (1, 1), (2, 1)]


def chk_halo(case, rec):
    """swizzle / swap / merge of a split with halos (elements outside the
    active range of the lower fibers)"""
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    rec.state((key[:2], key[3], spec))
    t = build(key, spec)
    for d in range(depth):
        for pre, post in HALOS:
            for rel in (False, True):
                r0 = t.splitUniform(2, depth=d, pre_halo=pre, post_halo=post,
                                    relativeCoords=rel)
                c0 = M.code_content(r0.getRoot(), default)
                ids = r0.getRankIds()
                n = depth + 1
                what = f"{spec!r} depth {d} halo {(pre, post)} rel {rel}"
                for perm in itertools.permutations(range(n)):
                    new = [ids[i] for i in perm]
                    sw = r0.swizzleRanks(new)
                    verify(sw, img_perm(c0, perm), n, default,
                           f"{what} swizzle {new}")
                    rec.step()
                    rec.ok()
                for e in range(n - 1):
                    perm = list(range(n))
                    perm[e], perm[e + 1] = perm[e + 1], perm[e]
                    sw = r0.swapRanks(depth=e)
                    verify(sw, img_perm(c0, perm), n, default,
                           f"{what} swap {e}")
                    rec.step()
                    rec.ok()
                    if e == d:
                        st = "relative" if rel else "absolute"
                        mg = r0.mergeRanks(depth=e, coord_style=st,
                                           merge_fn=FNS["max"][0])
                        cont = M.content(spec, depth, default)
                        verify(mg, cont, depth, default,
                               f"{what} merged")
                        rec.step()
                        rec.ok()


def chk_active(case, rec):
    """operands with restricted active ranges"""
    key, spec, d, act = case
    depth, shape, kind, default, fmts, auth = key
    t = build(key, spec)
    for f in t.ranks[d].getFibers():
        f.setActive(act)
    rec.state(case)
    cont = M.content(spec, depth, default)
    ids = t.getRankIds()
    for perm in itertools.permutations(range(depth)):
        new = [ids[i] for i in perm]
        verify(t.swizzleRanks(new), img_perm(cont, perm), depth, default,
               f"{spec!r} active {act} at {d} swizzle {new}")
        rec.step()
        rec.ok()
    for e in range(depth - 1):
        perm = list(range(depth))
        perm[e], perm[e + 1] = perm[e + 1], perm[e]
        verify(t.swapRanks(depth=e), img_perm(cont, perm), depth, default,
               f"{spec!r} active {act} at {d} swap {e}")
        r = t.flattenRanks(depth=e)
        verify(r, img_merge(cont, e, 1, "tuple", shape), depth - 1, default,
               f"{spec!r} active {act} at {d} flatten {e}")
        verify(r.unflattenRanks(depth=e), cont, depth, default,
               f"{spec!r} active {act} at {d} flatten {e} unflatten")
        rec.step(3)
        rec.ok(3)


def chk_flatflat(case, rec):
    """transforms of already flattened tensors (tuple coordinates)"""
    key, spec = case
    depth, shape, kind, default, fmts, auth = key
    cont = M.content(spec, depth, default)
    rec.state((key[:2], key[3], spec))
    t = build(key, spec)
    n = depth - 1
    sh = (None,) * depth
    for d in range(n):
        for style in ("tuple", "pair"):
            r = t.flattenRanks(depth=d, coord_style=style)
            c0 = img_merge(cont, d, 1, style, shape)
            ids = r.getRankIds()
            what = f"{spec!r} flattened {d} {style}"
            for e in range(n - 1):
                perm = list(range(n))
                perm[e], perm[e + 1] = perm[e + 1], perm[e]
                verify(r.swapRanks(depth=e), img_perm(c0, perm), n, default,
                       f"{what}, swap {e}")
                for st2 in ("tuple", "pair"):
                    w = f"{what}, flatten {e} {st2}"
                    f2 = r.flattenRanks(depth=e, coord_style=st2)
                    c2 = img_merge(c0, e, 1, st2, sh)
                    verify(f2, c2, n - 1, default, w)
                    rec.step()
                    rec.ok()
                    if st2 == "pair":
                        u = f2.unflattenRanks(depth=e)
                        verify(u, c0, n, default, w + ", unflatten")
                        rec.step()
                        rec.ok()
                    elif style == "tuple":
                        both = e in (d, d - 1)
                        u = f2.unflattenRanks(depth=e, levels=1 + both)
                        verify(u, cont if both else c0, depth - 1 + both,
                               default, w + ", unflatten")
                        require(u == (t if both else r), "{}: not equal", w)
                        rec.step()
                        rec.ok()
                rec.step()
                rec.ok()
            for perm in itertools.permutations(range(n)):
                new = [ids[i] for i in perm]
                verify(r.swizzleRanks(new), img_perm(c0, perm), n, default,
                       f"{what}, swizzle {new}")
                rec.step()
                rec.ok()


# ---------------------------------------------------------------- families

def K(shape, kind="tensor", default=0, fmts=None, auth=True):
    return (len(shape), shape, kind, default, fmts, auth)


def families(tier):
    q = tier == "quick"

    def sp(key, **kw):
        return M.specs(key[1], val(key[1]), key[3], **kw)

    def trees(keys):
        def g():
            for key, kw in keys:
                for s in sp(key, **kw):
                    yield (key, s)
        return g
    full, noexp, plainkw = {}, {"explicit": False}, \
        {"explicit": False, "empties": False}
    two = [(K((2, 3)), full), (K((3, 2)), full), (K((2, 2), default=3), full),
           (K((2, 3), fmts=("U", "U")), noexp),
           (K((2, 3), fmts=("U", "C")), noexp),
           (K((2, 3), fmts=("C", "U")), noexp),
           (K((3, 2), auth=False), full), (K((1, 4)), full),
           (K((2, 2), auth=False, default=3), full)]
    three = [(K((2, 2, 2)), noexp if q else full),
             (K((2, 1, 2)), full), (K((2, 2, 1), default=3), full),
             (K((1, 2, 2), auth=False), full),
             (K((2, 2, 1), fmts=("U", "U", "U")), full),
             (K((2, 1, 2), fmts=("C", "U", "C")), noexp),
             (K((2, 2, 2), default=3), plainkw)]
    four = [(K((2, 1, 1, 2)), full if not q else noexp),
            (K((1, 2, 2, 1), default=3), noexp if q else full),
            (K((2, 1, 2, 1)), noexp if q else full),
            (K((1, 2, 1, 2), fmts=("U", "C", "U", "C")), noexp),
            (K((2, 2, 1, 2)), plainkw if q else noexp)]
    if not q:
        two += [(K((3, 3)), full), (K((2, 4)), full), (K((4, 2)), full),
                (K((3, 3), default=3), noexp)]
        three += [(K((3, 2, 2)), noexp), (K((2, 2, 3)), noexp),
                  (K((2, 3, 2)), plainkw)]
        four += [(K((2, 2, 2, 1)), noexp), (K((2, 1, 2, 2)), noexp)]
    allk = two + three + four

    def sub(keys, kind):
        return [((k[0], k[1], kind) + k[3:], kw) for k, kw in keys
                if k[4] is None]

    def act():
        for key, kw in [(K((2, 3)), full), (K((2, 2, 1)), noexp)] + \
                ([] if q else [(K((3, 3)), noexp), (K((2, 2, 2)), noexp)]):
            for s in sp(key, **kw):
                for d in range(key[0]):
                    S = key[1][d]
                    for a in range(S + 1):
                        for b in range(a, S + 1):
                            if (a, b) != (0, S):
                                yield (key, s, d, (a, b))

    one = [(K((4,)), full), (K((4,), default=3), full),
           (K((4,), fmts=("U",)), full)]
    sk = one + two[:5] + [(K((2, 2, 2)), plainkw), (K((2, 2, 1)), full)]
    hk = one + [(K((2, 3)), noexp if q else full),
                (K((2, 3), default=3), plainkw)] + \
        ([] if q else [(K((2, 2, 2)), plainkw)])
    big = [K((6, 5)), K((5, 6), default=3), K((3, 4, 3)), K((5, 4), auth=False),
           K((3, 2, 3, 2)), K((2, 2, 2, 2, 2))]

    def large(keys):
        def g():
            for key in keys:
                lin = M.linval(key[1], 10)
                for s in M.lattice(key[1], lin):
                    yield (key, s)
        return g

    def huge():
        def g():
            for key in [K((70, 2)), K((3, 40), default=3), K((40, 3)),
                        K((7, 6, 5))] + ([] if q else [K((150, 3)),
                                                       K((4, 90)),
                                                       K((12, 3, 12))]):
                # integers: products of many fractions would be rounded
                lin = M.linval(key[1], 10)
                for s in M.lattice(key[1], lambda p, lin=lin: int(2 * lin(p))
                                   )[::7 if q else 3]:
                    yield (key, s)
        return g
    b = "; ".join(f"{k[1]}{'' if kw == full else ' without explicit defaults'}"
                  for k, kw in allk)
    return [
        Family("swizzle", trees(allk), chk_swizzle,
               f"all permutations and swaps with inverses; shapes {b}; "
               "defaults 0 and 3, formats C/U, with/without shape"),
        Family("flatten", trees(allk), chk_flatten,
               "all depths, levels and styles; all partial unflattenings; "
               "same trees"),
        Family("merge", trees(allk), chk_merge,
               "absolute/relative, all depths and levels, 4 merge functions; "
               "same trees"),
        Family("fiber", trees(sub(allk, "fiber")), chk_fiber,
               "Fiber-level forms and in-place Below forms; same trees"),
        Family("split", trees(sk), chk_split,
               "8 splits x depths, flatten absolute; double splits; swizzled "
               "splits"),
        Family("large-swizzle", large(big[:5] if q else big), chk_swizzle,
               "lattice patterns over 6x5, 5x6, 3x4x3, 5x4, 3x2x3x2 (thorough: 2^5)"),
        Family("large-flatten", large(big), chk_flatten, "the same"),
        Family("large-merge", large(big[:5]), chk_merge, "the same"),
        Family("large-split", large(big[:4]), chk_split, "the same"),
        Family("huge-swizzle", huge(), chk_swizzle, "70x2, 3x40, 40x3, 7x6x5: "
               "3-4 lattice patterns each"),
        Family("huge-flatten", huge(), chk_flatten, "the same"),
        Family("huge-merge", huge(), chk_merge, "the same"),
        Family("huge-split", huge(), chk_split, "the same"),
        Family("halo", trees(hk), chk_halo,
               "halo splits, all permutations/swaps, merged back"),
        Family("active", act, chk_active,
               "restricted active range on every rank, every sub-range"),
        Family("flatflat", trees([x for x in three + four]), chk_flatflat,
               "transforms of flattened tensors"),
    ]
