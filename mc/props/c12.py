"""C12 - equality, emptiness and counting depend on content only."""

import copy
import itertools
import operator
import pickle

from fibertree import Fiber, Payload, Tensor

from .. import model as M
from ..core import Family, Skip, Violation, eq, require

RULE = ("Equality is evaluated (both ways, == and !=) on every ordered pair of "
        "trees of the bound under every pair of presentations (unowned, with "
        "or without shape, tensor root, lazily produced, uncompressed rank, "
        "other default, built by appending) and compared with equality of "
        "the independently extracted content; the exact agreement on all "
        "pairs implies reflexivity, symmetry and transitivity, which are also "
        "checked directly on triples. Emptiness, counting and pruning are "
        "evaluated on every tree and every sub-tree.")
ASSUMPTIONS = ["payload values are hashable scalars with exact equality"]


def specs(shape, vals, default, empties=True):
    """Leaves: absent, explicit default or one of vals"""
    opts = []
    for c in range(shape[0]):
        o = [None]
        if len(shape) == 1:
            o += [(c, default)] + [(c, v) for v in vals if v != default]
        else:
            o += [(c, s) for s in specs(shape[1:], vals, default, empties)
                  if empties or s != ()]
        opts.append(o)
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*opts)]


def canon(spec, depth, default):
    return tuple(sorted(M.content(spec, depth, default).items()))


# ---------------------------------------------------------------- presentations

def mk(spec, depth, shape, default, how):
    """A live fiber presenting the spec"""
    if how == "bare":
        return M.mk_fiber(spec, depth, default)
    if how == "shaped":
        return M.mk_fiber(spec, depth, default, tuple(s + 2 for s in shape))
    if how == "owned":
        return M.mk_tensor(spec, depth, shape=shape, default=default).getRoot()
    if how == "owned-est":
        return M.mk_tensor(spec, depth, default=default,
                           fiber_shape=False).getRoot()
    if how == "owned-U":
        return M.mk_tensor(spec, depth, shape=shape, default=default,
                           fmts="U" * depth).getRoot()
    if how == "owned-UC":
        return M.mk_tensor(spec, depth, shape=shape, default=default,
                           fmts=("UC" * depth)[:depth]).getRoot()
    if how == "active":
        f = M.mk_fiber(spec, depth, default, shape)
        f.setActive((1, 1))
        return f
    if how == "lazy":
        return M.mk_fiber(spec, depth, default).prune(
            trans_fn=lambda i, c, p: True)
    if how == "lazy-union":
        return M.mk_fiber(spec, depth, default).project(
            trans_fn=lambda c: c)
    if how == "unordered":
        # every level stored in descending order
        def go(s, d):
            s = s[::-1]
            cs = [c for c, _ in s]
            if d == 1:
                return Fiber(cs, [v for _, v in s], default=default,
                             ordered=False)
            return Fiber(cs, [go(x, d - 1) for _, x in s], default=Fiber,
                         ordered=False)
        return go(spec, depth)
    raise KeyError(how)


HOWS = ["bare", "shaped", "owned", "owned-est", "owned-U", "owned-UC",
        "active", "lazy", "lazy-union", "unordered"]


def same(a, b, want, what):
    for x, y, d in ((a, b, "=="), (b, a, "== (flipped)")):
        g = x == y
        if g is not want and g != want:
            raise Violation(f"{what}: {d} gives {g!r}, expected {want}")
        n = x != y
        if n == want:
            raise Violation(f"{what}: != gives {n!r}")


def chk_pair(case, rec):
    """one tree against every tree of the same shape, for a pair of
    presentations"""
    shape, vals, da, db, ha, hb, sa = case
    depth = len(shape)
    ca = canon(sa, depth, da)
    a = mk(sa, depth, shape, da, ha)
    before = None if a.isLazy() else M.raw(a)
    for sb in specs(shape, vals, db):
        b = mk(sb, depth, shape, db, hb)
        same(a, b, ca == canon(sb, depth, db),
             f"{sa!r}({ha},default {da!r}) vs {sb!r}({hb},default {db!r})")
        rec.step(4)
        rec.ok(2)
        rec.outcome((ca, sb))
    if before is not None and M.raw(a) != before:
        raise Violation(f"{sa!r}: comparison changed the tree")
    rec.state(case)


def chk_edit(case, rec):
    """larger trees against all their one-leaf edits, restructurings"""
    shape, vals, d, spec = case
    depth = len(shape)
    cont = M.content(spec, depth, d)
    rec.state(case)
    a = mk(spec, depth, shape, d, "owned")
    for pt in itertools.product(*[range(s) for s in shape]):
        for v in (None,) + tuple(vals):
            c2 = dict(cont)
            if v is None or v == d:
                c2.pop(pt, None)
            else:
                c2[pt] = v
            b = mk(M.from_content(c2, depth), depth, shape, d, "bare")
            same(a, b, cont == c2, f"{spec!r} with {pt} set to {v!r}")
            rec.step(4)
            rec.ok(2)


def chk_tensor(case, rec):
    """tensors: same ids -> content; different ids -> unequal"""
    shape, vals, d, sa = case
    depth = len(shape)
    ca = canon(sa, depth, d)
    rec.state(case)
    ids = ["M", "N", "K"][:depth]
    variants = [
        lambda s: M.mk_tensor(s, depth, shape, d, ids, name="a"),
        lambda s: M.mk_tensor(s, depth, None, d, ids, fiber_shape=False),
        lambda s: M.mk_tensor(s, depth, [x + 3 for x in shape], d, ids,
                              fmts=("U" * depth)),
    ]
    t = variants[0](sa)
    for sb in specs(shape, vals, d):
        for v in variants:
            same(t, v(sb), ca == canon(sb, depth, d),
                 f"tensors {sa!r} and {sb!r}")
            rec.step(4)
            rec.ok()
    other = M.mk_tensor(sa, depth, shape, d, ["X"] + ids[1:])
    same(t, other, False, f"{sa!r}: tensors with different rank ids")
    if depth > 1:
        same(t, M.mk_tensor(sa, depth, shape, d, ids[::-1]), False,
             f"{sa!r}: tensors with permuted rank ids")
    for c in (copy.deepcopy(t), pickle.loads(pickle.dumps(t)),
              Tensor.fromFiber(ids, t.getRoot(), default=d)):
        same(t, c, True, f"{sa!r}: copies")
    eq(t.countValues(), len(ca), f"{sa!r}: Tensor.countValues()")


def no_junk(spec, depth, default):
    for c, s in spec:
        if depth == 1:
            if s == default:
                return False
        elif s == () or not no_junk(s, depth - 1, default):
            return False
    return True


def chk_count(case, rec):
    shape, d, how, spec = case
    depth = len(shape)
    rec.state(case)
    f = mk(spec, depth, shape, d, how)
    w = f"{spec!r} ({how}, default {d!r})"

    def walk(f, s, dep):
        cont = M.content(s, dep, d)
        eq(f.isEmpty(), not cont, f"{w}: isEmpty of {s!r}")
        eq(Payload.isEmpty(f, default=d), not cont,
           f"{w}: Payload.isEmpty of {s!r}")
        eq(f.countValues(), len(cont), f"{w}: countValues of {s!r}")
        eq(f.countValues(recursive=False), len(M.present(s, dep, d)),
           f"{w}: countValues(recursive=False) of {s!r}")
        g = f.nonEmpty()
        want = M.from_content(cont, dep)
        if how == "unordered":
            got = norm(M.raw(g))
        else:
            got = M.raw(g)
        eq(got, want, f"{w}: nonEmpty of {s!r}")
        M.check_fiber(g, f"{w}: nonEmpty of {s!r}", dep,
                      ordered=how != "unordered")
        same(f, g, True, f"{w}: nonEmpty of {s!r} compared")
        same(f, copy.deepcopy(f), True, f"{w}: deepcopy of {s!r} compared")
        same(f, f.copy(), True, f"{w}: copy of {s!r} compared")
        same(f, f.copy(preserve_owner=False), True,
             f"{w}: copy without owner of {s!r} compared")
        same(f, f, True, f"{w}: {s!r} with itself")
        eq(g.countValues(), len(cont), f"{w}: nonEmpty countValues")
        eq(g.isEmpty(), not cont, f"{w}: nonEmpty isEmpty")
        # the pruned copy judges emptiness like the original does
        for p in g.payloads:
            require(not Payload.isEmpty(p, default=d) if dep == 1 else
                    not p.isEmpty(), "{}: nonEmpty keeps an empty element", w)
        rec.step(12)
        rec.ok(8)
        if dep > 1:
            order = s[::-1] if how == "unordered" else s
            for p, (_, sub) in zip(f.payloads, order):
                walk(p, sub, dep - 1)
    walk(f, spec, depth)
    if how == "unordered":
        eq(norm(M.raw(f)), spec, f"{w}: the tree changed")
    else:
        eq(M.raw(f), spec, f"{w}: the tree changed")


def norm(s):
    return tuple(sorted((c, norm(x) if isinstance(x, tuple) else x)
                        for c, x in s))


def chk_rank0(case, rec):
    va, vb, d = case
    a = Tensor(rank_ids=[], default=d)
    b = Tensor(rank_ids=[], default=d)
    r = a.getRoot()
    r <<= va
    q = b.getRoot()
    q <<= vb
    same(a, b, va == vb, f"rank-0 tensors {va!r} {vb!r}")
    same(a, copy.deepcopy(a), True, "rank-0 deepcopy")
    eq(a.getRoot().value, va, "rank-0 value")
    eq(a.countValues(), 0 if va == d else 1, f"rank-0 {va!r} countValues")
    rec.state(case)
    rec.step(6)
    rec.ok(3)


def chk_mixed(case, rec):
    """objects that are not of the same kind or depth"""
    sa, da, sb, db = case
    a = M.mk_fiber(sa, da)
    b = M.mk_fiber(sb, db)
    ca, cb = M.content(sa, da), M.content(sb, db)
    rec.state(case)
    if ca or cb:
        # points of different arity are different points
        same(a, b, ca == cb, f"{sa!r} (depth {da}) vs {sb!r} (depth {db})")
        rec.step(4)
        rec.ok()
    for x in (None, 0, 1, "x", [], [0], Payload(0)):
        require(not (a == x) and (a != x), "{!r} equals {!r}", sa, x)
        rec.step(2)


def chk_triples(case, rec):
    shape, d, sa = case
    depth = len(shape)
    rec.state(case)
    pool = specs(shape, (1,), d)
    fs = [mk(s, depth, shape, d, HOWS[i % 7]) for i, s in enumerate(pool)]
    a = mk(sa, depth, shape, d, "owned")
    eqs = [a == f for f in fs]
    for i, x in enumerate(fs):
        for j, y in enumerate(fs):
            if eqs[i] and x == y:
                require(eqs[j], "== is not transitive: {!r} {!r} {!r}", sa,
                        pool[i], pool[j])
            rec.step()
    rec.ok()


def chk_build(case, rec):
    """the same content reached by different histories"""
    spec, d, order = case
    shape = (2, 2)
    t = Tensor(rank_ids=["M", "N"], shape=[2, 2], default=d)
    for pt, v in order:
        r = t.getPayloadRef(*pt)
        r <<= v
    cont = {}
    for pt, v in order:
        cont[pt] = v
    cont = {k: v for k, v in cont.items() if v != d}
    w = M.mk_tensor(M.from_content(cont, 2), 2, default=d,
                    rank_ids=["M", "N"])
    same(t, w, True, f"writes {order!r} vs canonical")
    eq(t.countValues(), len(cont), f"writes {order!r}: countValues")
    eq(t.getRoot().isEmpty(), not cont, f"writes {order!r}: isEmpty")
    if cont:
        k = sorted(cont)[0]
        c2 = dict(cont)
        del c2[k]
        same(t, M.mk_tensor(M.from_content(c2, 2), 2, default=d,
                            rank_ids=["M", "N"]), False,
             f"writes {order!r} vs content without {k}")
    rec.state(case)
    rec.step(len(order) + 6)
    rec.ok(3)


# ---------------------------------------------------------------- observed trees

def observe(f, depth, d, w, rec, other=None):
    """every observer on every level of a live tree, expected from the stored
    elements"""
    def walk(f, dep):
        s = M.raw(f)
        cont = M.content(s, dep, d)
        eq(f.isEmpty(), not cont, f"{w}: isEmpty of {s!r}")
        eq(Payload.isEmpty(f, default=d), not cont,
           f"{w}: Payload.isEmpty of {s!r}")
        eq(f.countValues(), len(cont), f"{w}: countValues of {s!r}")
        eq(f.countValues(recursive=False), len(M.present(s, dep, d)),
           f"{w}: countValues(recursive=False) of {s!r}")
        g = f.nonEmpty()
        eq(M.raw(g), M.from_content(cont, dep), f"{w}: nonEmpty of {s!r}")
        eq(g.isEmpty(), not cont, f"{w}: nonEmpty isEmpty")
        eq(g.countValues(), len(cont), f"{w}: nonEmpty countValues")
        same(f, g, True, f"{w}: {s!r} against its nonEmpty")
        same(f, f, True, f"{w}: {s!r} against itself")
        rec.step(9)
        if dep > 1:
            for p in f.payloads:
                walk(p, dep - 1)
    walk(f, depth)
    cont = M.content(M.raw(f), depth, d)
    for o, oc in other or ():
        same(f, o, cont == oc, f"{w}: against {M.raw(o)!r}")
        rec.step(4)


def edits_of(shape, d):
    """Edits of a live tree; every one yields a new state from any state"""
    depth = len(shape)
    pts = list(itertools.product(*[range(x) for x in shape]))
    out = [("ref", pt, v) for pt in pts for v in (d, 7)]
    out += [("box", v) for v in (d, 7)]
    out += [("upd", v) for v in (d, 7)] + [("shift",)]
    if depth == 1:
        out += [("setitem", v) for v in (d, 7)] + [("append", v)
                                                   for v in (d, 7)]
    out += [("clear",), ("clear-sub",)] if depth > 1 else [("clear",)]
    return out


def do_edit(t, f, e, depth, shape, d):
    """-> False where the edit does not apply"""
    k = e[0]
    if k == "ref":
        p = (t or f).getPayloadRef(*e[1])
        p <<= e[2]
    elif k == "box":
        # the first stored box, written through the object
        g = f
        for _ in range(depth - 1):
            g = next((M.unbox(p) for p in g.payloads if len(p.coords)), None)
            if g is None:
                return False
        if not g.payloads:
            return False
        b = g.payloads[0]
        b <<= e[1]
    elif k == "upd":
        v = e[1]
        f.updatePayloads(lambda i, c, p: v, depth=depth - 1)
    elif k == "shift":
        f.updateCoords(lambda i, c, p: shape[0] - 1 - c)
    elif k == "setitem":
        if not f.coords:
            return False
        f[len(f.coords) - 1] = e[1]
    elif k == "append":
        c = f.coords[-1] + 1 if f.coords else 0
        f.append(c, Payload(e[1]))
    elif k == "clear":
        f.clear()
    elif k == "clear-sub":
        if not f.payloads:
            return False
        M.unbox(f.payloads[-1]).clear()
    return True


def chk_observed(case, rec):
    """All observers before and after every edit of a history: none may keep
    an answer of an earlier content"""
    kind, shape, d, spec, seq = case
    depth = len(shape)
    t = None
    if kind == "tensor":
        t = M.mk_tensor(spec, depth, shape=shape, default=d)
        f = t.getRoot()
    else:
        f = M.mk_fiber(spec, depth, d, shape)
    w = f"{kind} {spec!r} default {d!r}"
    ref = [(M.mk_fiber(s, depth, d, shape), M.content(s, depth, d))
           for s in (spec, (), M.from_content(
               {(0,) * depth: 7}, depth))]
    observe(f, depth, d, w, rec, ref)
    for i, e in enumerate(seq):
        if not do_edit(t, f, e, depth, shape, d):
            raise Skip("edit not applicable")
        w += f" then {e!r}"
        observe(f, depth, d, w, rec, ref)
        if t is not None:
            n = len(M.content(M.raw(f), depth, d))
            eq(t.countValues(), n, f"{w}: Tensor.countValues")
        rec.ok()
        rec.state((kind, d, M.raw(f)))


# ---------------------------------------------------------------- large trees

def chk_large(case, rec):
    """counts and comparisons over hundreds of elements; the trees differ in
    one element at every interesting place, or in none"""
    n, d, how, kind = case
    if kind == "flat":
        depth, shape = 1, (n,)
        spec = tuple((c, d if c % 3 == 0 else 10 + c) for c in range(n))
        places = [(c,) for c in (1, n // 2 - (n // 2) % 3 + 1, n - 1)]
    else:
        depth, shape = 2, (n, 2)
        spec = tuple((c, () if c % 4 == 0 else ((0, d),) if c % 4 == 1 else
                      ((0, 10 + c), (1, 5))) for c in range(n))
        places = [(2, 0), (2, 1), (n // 2 - (n // 2) % 4 + 2, 1),
                  (n - 1, 0), (n - 1, 1)]
    f = mk(spec, depth, shape, d, how)
    cont = M.content(spec, depth, d)
    w = f"large {case!r}"
    observe(f, depth, d, w, rec) if how != "unordered" else None
    eq(f.countValues(), len(cont), f"{w}: countValues")
    for pt in places:
        for v in (None, d, 3):
            c2 = dict(cont)
            if v is None or v == d:
                c2.pop(pt, None)
            else:
                c2[pt] = v
            same(f, M.mk_fiber(M.from_content(c2, depth), depth, d),
                 c2 == cont, f"{w} with {pt} set to {v!r}")
            rec.step(4)
    # nothing but one value at the end of many defaults
    for v in (d, 3):
        if depth == 1:
            s = tuple((c, d) for c in range(n - 1)) + ((n - 1, v),)
        else:
            s = tuple((c, ((0, d), (1, d))) for c in range(n - 1)) + \
                ((n - 1, ((0, d), (1, v))),)
        g = mk(s, depth, shape, d, how)
        k = 0 if v == d else 1
        eq(g.countValues(), k, f"{w}: one value at the end counted")
        eq(g.isEmpty(), not k, f"{w}: one value at the end, isEmpty")
        same(g, M.mk_fiber((), depth, d), not k,
             f"{w}: one value at the end against an empty tree")
        rec.step(6)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"

    def pairs():
        # depth 1: every pair of presentations, mixed defaults
        for da, db in ((0, 0), (3, 3), (0, 3), (3, 0), (float("inf"), 0)):
            vals = (1, 3) if da != db else (1, 2)
            for ha in HOWS:
                for hb in HOWS:
                    for s in specs((2,), vals, da):
                        yield ((2,), vals, da, db, ha, hb, s)
        for ha in HOWS:
            for hb in HOWS if not q else ("bare", "owned-U", "lazy"):
                for s in specs((3,), (1, 2), 0):
                    yield ((3,), (1, 2), 0, 0, ha, hb, s)
        # depth 2
        for ha, hb in (itertools.product(HOWS, HOWS) if not q else
                       [("owned", "bare"), ("shaped", "owned-est"),
                        ("owned-U", "owned"), ("owned-UC", "lazy"),
                        ("unordered", "bare")]):
            for s in specs((2, 2), (1,), 0):
                yield ((2, 2), (1,), 0, 0, ha, hb, s)
        for ha, hb in (("owned", "bare"), ("owned-U", "shaped")):
            for da, db in ((3, 3), (0, 3)):
                for s in specs((2, 1), (1, 2), da):
                    yield ((2, 1), (1, 2), da, db, ha, hb, s)
                for s in specs((1, 2), (1, 3), da):
                    yield ((1, 2), (1, 3), da, db, ha, hb, s)
        for s in specs((2, 2), (1, 2), 0):
            yield ((2, 2), (1, 2), 0, 0, "owned", "bare", s)
        # depth 3 and 4
        for sh in ((2, 1, 2), (2, 2, 1), (1, 2, 2)):
            for ha, hb in (("owned", "bare"),) if q else \
                    (("owned", "bare"), ("owned-U", "lazy"),
                     ("unordered", "owned")):
                for s in specs(sh, (1,), 0):
                    yield (sh, (1,), 0, 0, ha, hb, s)
        for s in specs((1, 2, 1, 1), (1,), 0):
            yield ((1, 2, 1, 1), (1,), 0, 0, "owned", "bare", s)

    def edits():
        for s in specs((2, 2, 2), (1,), 0):
            yield ((2, 2, 2), (1, 2), 0, s)
        for s in specs((3, 2), (1, 2), 3) if not q else \
                specs((3, 2), (1,), 3):
            yield ((3, 2), (1, 2), 3, s)
        if not q:
            for s in specs((2, 2, 1, 2), (1,), 0):
                yield ((2, 2, 1, 2), (1, 2), 0, s)

    def tens():
        for sh in ((3,), (2, 2), (2, 1, 2)) + (() if q else ((3, 2),)):
            for d in (0, 3):
                for s in specs(sh, (1,), d):
                    yield (sh, (1,), d, s)

    def counts():
        for how in HOWS:
            if how.startswith("lazy"):
                continue
            for d in (0, 3) if q else (0, 3, -1):
                for sh in ((3,), (2, 2), (2, 1, 2)):
                    for s in specs(sh, (1, 0) if d else (1,), d):
                        yield (sh, d, how, s)
        for how in ("owned",) if q else ("owned", "bare"):
            for s in specs((2, 2, 2), (1,), 0):
                yield ((2, 2, 2), 0, how, s)

    def rank0():
        for d in (0,):
            for va in (0, 1, 3):
                for vb in (0, 1, 3):
                    yield (va, vb, d)

    def mixed():
        for sh1, sh2 in (((2,), (2, 1)), ((2, 1), (1, 1, 1)),
                         ((1,), (1, 1, 1))):
            for s1 in specs(sh1, (1,), 0):
                for s2 in specs(sh2, (1,), 0):
                    yield (s1, len(sh1), s2, len(sh2))
                    yield (s2, len(sh2), s1, len(sh1))

    def trip():
        for sh in ((3,), (1, 2), (2, 1)) + (() if q else ((2, 2),)):
            for d in (0, 3):
                for s in specs(sh, (1,), d):
                    yield (sh, d, s)

    def builds():
        pts = list(itertools.product(range(2), range(2)))
        for d in (0, 3):
            for n in range(1, 4 if q else 5):
                for seq in itertools.product(
                        [(p, v) for p in pts for v in (d, 1)], repeat=n):
                    yield ((), d, seq)
    def observed():
        for kind in ("fiber", "tensor"):
            for d in (0, 3):
                for sh, n in (((2,), 2), ((2, 2), 2)) if q else \
                        (((3,), 3), ((2, 2), 2), ((2, 1, 2), 2)):
                    es = edits_of(sh, d)
                    for s in specs(sh, (1,), d):
                        # (an unowned fiber without any leaf fiber does not
                        # know the leaf default)
                        if d and kind == "fiber" and len(sh) > 1:
                            continue
                        for seq in itertools.product(es, repeat=n):
                            yield (kind, sh, d, s, seq)

    def large():
        for n in (40, 110, 300) if q else (40, 110, 300, 1030):
            for d in (0, 3):
                for how in HOWS:
                    if not how.startswith("lazy") and how != "active":
                        for kind in ("flat", "nested"):
                            yield (n, d, how, kind)
    return [
        Family("observed", observed, chk_observed, "every history of 2 edits "
               "of trees (2,) and (2,2) (thorough: 3 of (3,), 2 of (2,1,2)), every "
               "observer on every level before and after each"),
        Family("large", large, chk_large, "40, 110 and 300 elements "
               "(thorough: 1030) x 7 presentations"),
        Family("pairs", pairs, chk_pair, "all pairs of trees: (2,) 10x10 "
               "presentations x 5 default pairs, (3,), (2,2), (2,1,2), "
               "(2,2,1), (1,2,2), (1,2,1,1)"),
        Family("edits", edits, chk_edit, "all (2,2,2), (3,2) trees against "
               "every single-point edit of their content"),
        Family("tensors", tens, chk_tensor, "all pairs, 3 tensor variants, "
               "rank ids equal/renamed/permuted"),
        Family("counts", counts, chk_count, "every tree and sub-tree, "
               "8 presentations x 3 defaults"),
        Family("rank0", rank0, chk_rank0, "rank-0 tensors"),
        Family("mixed", mixed, chk_mixed, "fibers of different depth, "
               "non-fibers"),
        Family("triples", trip, chk_triples, "all triples"),
        Family("builds", builds, chk_build, "every sequence of up to 3 "
               "reference writes on a 2x2 tensor"),
    ]
