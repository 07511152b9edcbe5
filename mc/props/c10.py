"""C10 - value-returning operations never disturb or alias their operands;
observers leave everything as it was."""

import copy
import itertools
import os

from fibertree import Fiber, Payload, Tensor, TensorCanvas, TensorImage
from fibertree.model.format import Format

from .. import model as M
from .. import xform
from ..core import Family, Skip, Violation, eq, require

RULE = ("Every value-returning operation is run on every tree of the bound "
        "(owned and unowned, every format / default / shape source of the "
        "bound): a snapshot of the operand with object identities is compared "
        "before and after, the sets of mutable objects reachable from operand "
        "and result are intersected, and every mutation of a list is applied "
        "to one side while the snapshot of the other is compared. Every "
        "read-only operation (and every pair of them) is run on the same trees "
        "between two snapshots; what it returns is then modified, again "
        "between snapshots. Images are rendered twice and compared.")
ASSUMPTIONS = [
    "slices, ranges, concatenations and lazy results present the payloads of "
    "their operands by design; only their operands' snapshots are compared",
    "copy() of an owned fiber keeps the owner when asked to "
    "(preserve_owner=True copies the rank as well)",
]

IDS = ["M", "N", "K", "J"]


# ---------------------------------------------------------------- operands

def operand(key, spec):
    """key: (shape, source, default, formats) with source one of tensor
    (declared shape), estimated (no shape)"""
    shape, auth, default, fmts = key
    depth = len(shape)
    t = M.mk_tensor(spec, depth, shape=shape if auth else None,
                    default=default, rank_ids=IDS[:depth], fmts=fmts,
                    name="T", fiber_shape=auth)
    return t


def describe(key, spec):
    return f"tensor {spec!r} shape {key[0] if key[1] else None} default " \
        f"{key[2]!r} formats {key[3]}"


def reach(x):
    """mutable objects reachable from x (defaults and id lists included)"""
    ids = M.reachable(x)

    def attrs(a, what):
        i = a.getId()
        if isinstance(i, list):
            ids[id(i)] = f"id list of {what}"
        d = a.__dict__.get("_default")
        if isinstance(d, (Payload, Fiber)):
            ids[id(d)] = f"default of {what}"
    if isinstance(x, Tensor):
        for r in x.ranks:
            attrs(r.getAttrs(), "rank")
        root = x.getRoot()
    else:
        root = x
    if isinstance(root, Fiber):
        stack = [root]
        while stack:
            f = stack.pop()
            attrs(f.getRankAttrs(), "fiber")
            stack.extend(p for p in f.payloads if isinstance(p, Fiber))
    return ids


def shared(a, b):
    ia, ib = reach(a), reach(b)
    return sorted({ia[k] for k in ia if k in ib})


# ---------------------------------------------------------------- operations

FOPS = {
    "deepcopy": lambda f, d: copy.deepcopy(f),
    "copy": lambda f, d: f.copy(),
    "copy-unowned": lambda f, d: f.copy(preserve_owner=False),
    "nonEmpty": lambda f, d: f.nonEmpty(),
    "uniform": lambda f, d: f.splitUniform(2),
    "uniform-1": lambda f, d: f.splitUniform(2, depth=1),
    "uniform-rel": lambda f, d: f.splitUniform(2, relativeCoords=True),
    "uniform-halo": lambda f, d: f.splitUniform(2, pre_halo=1, post_halo=1),
    "nonuniform": lambda f, d: f.splitNonUniform([0, 1]),
    "nonuniform-fiber": lambda f, d: f.splitNonUniform(
        Fiber([0, 2], [1, 1])),
    "equal": lambda f, d: f.splitEqual(1),
    "equal-2": lambda f, d: f.splitEqual(2, post_halo=1),
    "unequal": lambda f, d: f.splitUnEqual([1, 1]),
    "div": lambda f, d: f / 2,
    "floordiv": lambda f, d: f // 2,
    "swap": lambda f, d: f.swapRanks(),
    "flatten": lambda f, d: f.flattenRanks(),
    "flatten-pair": lambda f, d: f.flattenRanks(style="pair"),
    "flatten-linear": lambda f, d: f.flattenRanks(style="linear"),
    "flatten-all": lambda f, d: f.flattenRanks(levels=d - 1),
    "merge": lambda f, d: f.mergeRanks(
        style="absolute", merge_fn=lambda ps: sum(p.value for p in ps)),
    "merge-rel": lambda f, d: f.mergeRanks(
        style="relative", merge_fn=lambda ps: ps[0]),
    "f+2": lambda f, d: f + 2,
    "2+f": lambda f, d: 2 + f,
    "f+0": lambda f, d: f + 0,
    "f*2": lambda f, d: f * 2,
    "2*f": lambda f, d: 2 * f,
    "f*1": lambda f, d: f * 1,
    "f+P": lambda f, d: f + Payload(2),
    "f*P": lambda f, d: f * Payload(2),
    "f+f": lambda f, d: f + f,
    "f*f": lambda f, d: f * f,
}

# operations on a flattened operand
FLAT = {
    "unflatten": lambda f, d: f.unflattenRanks(levels=d - 1),
    "deepcopy": lambda f, d: copy.deepcopy(f),
    "nonEmpty": lambda f, d: f.nonEmpty(),
    "equal": lambda f, d: f.splitEqual(1),
    "unequal": lambda f, d: f.splitUnEqual([1, 2]),
}

DEEP = {"uniform-1", "swap", "flatten", "flatten-pair", "flatten-linear",
        "flatten-all", "merge", "merge-rel"}
ARITH = {"f+2", "2+f", "f+0", "f*2", "2*f", "f*1", "f+P", "f*P", "f+f", "f*f"}

BIN = {
    "+": lambda a, b: a + b,
    "*": lambda a, b: a * b,
    "radd": lambda a, b: a.__radd__(b) if False else b + a,
}


def build(side, key, spec):
    """-> (holder to snapshot, operand)"""
    t = operand(key, spec)
    if side == "tensor":
        return t, t
    if side == "root":
        return t, t.getRoot()
    if side == "inner":
        subs = [p for p in t.getRoot().payloads if isinstance(p, Fiber)]
        if not subs:
            raise Skip("no inner fiber")
        return t, subs[-1]
    f = M.mk_fiber(spec, len(key[0]), key[2], key[0] if key[1] else None)
    return f, f


def run(side, op, x, depth, flat=False):
    if side == "tensor":
        if op[0] == "t":
            return xform.apply(x, op[1:])
    return (FLAT if flat else FOPS)[op](x, depth)


# mutations of a live tensor or fiber, applied after the operation

def leaves(f):
    out, stack = [], [f]
    while stack:
        g = stack.pop()
        for p in g.payloads:
            if isinstance(p, Fiber):
                stack.append(p)
            else:
                out.append((g, p))
    return out


def fibers(f):
    out, stack = [], [f]
    while stack:
        g = stack.pop()
        out.append(g)
        stack.extend(p for p in g.payloads if isinstance(p, Fiber))
    return out


def top(x):
    return x.getRoot() if isinstance(x, Tensor) else x


def m_leaf_update(x):
    for _, p in leaves(top(x)):
        if isinstance(p, Payload):
            p <<= 77


def m_leaf_add(x):
    for _, p in leaves(top(x)):
        if isinstance(p, Payload) and isinstance(p.value, (int, float)):
            p += 100


def m_clear(x):
    for f in fibers(top(x))[::-1]:
        f.clear()


def m_append(x):
    for f in fibers(top(x)):
        if f.coords and isinstance(f.coords[-1], int):
            if not isinstance(f.payloads[0], Fiber):
                f.append(f.coords[-1] + 50, 5)


def m_reference(x):
    f = top(x)
    pt = []
    while f.coords:
        c = f.coords[-1]
        pt.append(c)
        p = f.payloads[-1]
        if not isinstance(p, Fiber):
            if isinstance(c, int):
                top(x).getPayloadRef(*pt[:-1], c + 9)
            return
        f = p


def m_coords(x):
    for f in fibers(top(x)):
        for i, c in enumerate(f.coords):
            if isinstance(c, int):
                f.coords[i] = c + 1000


def m_payload_lists(x):
    for f in fibers(top(x)):
        f.payloads.reverse()


def m_attrs(x):
    for f in fibers(top(x)):
        a = f.getRankAttrs()
        a.setFormat("U" if a.getFormat() == "C" else "C")
        if isinstance(a.getId(), list):
            a.getId().append("zz")
        a.setId("zz")
        a.setShape(991)
        if not f.payloads or not isinstance(f.payloads[0], Fiber):
            a.setDefault(13)
    if isinstance(x, Tensor):
        for r in x.ranks:
            r.getAttrs().setFormat("U")
            r.getAttrs().setShape(993)


def m_active(x):
    for f in fibers(top(x)):
        f.setActive((3, 4))


def m_tensor(x):
    if not isinstance(x, Tensor):
        return
    x.setName("other").setColor("green").setMutable(not x.isMutable())
    x.ranks[-1].setDefault(17)
    x.setRoot(Fiber([], []))


MUTS = [m_leaf_update, m_leaf_add, m_clear, m_append, m_reference, m_coords,
        m_payload_lists, m_attrs, m_active, m_tensor]


def results_of(r):
    return r if isinstance(r, tuple) else (r,)


def chk_value(case, rec):
    key, spec, side, op, flat = case
    depth = len(key[0])
    w = f"{side} {describe(key, spec)}: {op}{' after flatten' if flat else ''}"

    def make():
        if flat:
            holder, x = build(side, key, spec)
            x = holder = x.flattenRanks(levels=depth - 1)
        else:
            holder, x = build(side, key, spec)
        return holder, x

    holder, x = make()
    d = x.getDepth() if isinstance(x, Fiber) and x.getOwner() is None else \
        depth - (1 if side == "inner" else 0)
    before = M.snap(holder)
    try:
        r = run(side, op, x, d, flat)
    except AssertionError:
        r = None                        # refused (precondition)
    rec.step()
    after = M.snap(holder)
    if r is None and before == after:
        raise Skip("refused")
    if before != after:
        raise Violation(f"{w}: the operand changed: {diff(before, after)}")
    for y in results_of(r):
        require(isinstance(y, (Fiber, Tensor)), "{}: returned {!r}", w, y)
        s = shared(y, holder)
        if s:
            raise Violation(f"{w}: the result shares mutable objects with the "
                            f"operand: {s}")
    rec.ok()
    rec.state((key, spec, side, op, flat))
    # follow-up mutations, on either side
    snap_r = [M.snap(y) for y in results_of(r)]
    for m in MUTS:
        for y in results_of(r):
            try:
                m(y)
            except Exception:
                pass                    # not every mutation applies
        rec.step()
    after = M.snap(holder)
    if before != after:
        raise Violation(f"{w}: mutating the result changed the operand: "
                        f"{diff(before, after)}")
    holder, x = make()
    r = run(side, op, x, d, flat)
    snap_r = [M.snap(y) for y in results_of(r)]
    for m in MUTS:
        try:
            m(holder)
        except Exception:
            pass
        rec.step()
    for y, s in zip(results_of(r), snap_r):
        if M.snap(y) != s:
            raise Violation(f"{w}: mutating the operand changed the result: "
                            f"{diff(s, M.snap(y))}")
    rec.ok()


# operands that are results themselves: their ranks carry lists of ids, tuple
# coordinates, partition levels
PRIOR = {
    "flatten": lambda t: t.flattenRanks(),
    "flatten-pair": lambda t: t.flattenRanks(coord_style="pair"),
    "flatten-linear": lambda t: t.flattenRanks(coord_style="linear"),
    "flatten-low": lambda t: t.flattenRanks(depth=t.getDepth() - 2),
    "flatten-all": lambda t: t.flattenRanks(levels=t.getDepth() - 1),
    "flatten-twice": lambda t: t.flattenRanks().flattenRanks(
        coord_style="pair"),
    "split": lambda t: t.splitUniform(2),
    "split-low": lambda t: t.splitUniform(2, depth=t.getDepth() - 1),
    "split-halo": lambda t: t.splitEqual(1, pre_halo=1, post_halo=1),
    "merge": lambda t: t.mergeRanks(
        merge_fn=lambda ps: sum(p.value for p in ps)),
    "swap": lambda t: t.swapRanks(),
    "flatten-split": lambda t: t.flattenRanks().splitEqual(1),
    "split-flatten": lambda t: t.splitUniform(2, depth=1).flattenRanks(),
}


def chk_chain(case, rec):
    """every value-returning transform of a tensor that is itself the result
    of one"""
    key, spec, prior = case
    depth = len(key[0])

    def make():
        try:
            return PRIOR[prior](operand(key, spec))
        except (AssertionError, TypeError, IndexError, ValueError,
                AttributeError):
            raise Skip("the first operation refused")

    x = make()
    ids = x.getRankIds()
    alpha = xform.alphabet(len(ids), (2,) * len(ids), ids)
    for op in alpha:
        w = f"{describe(key, spec)} after {prior}: {op}"
        x = make()
        before = M.snap(x)
        r = None
        try:
            r = xform.apply(x, op)
        except Exception:
            pass                # not every operation takes such an operand
        rec.step()
        after = M.snap(x)
        if before != after:
            raise Violation(f"{w}: the operand changed: {diff(before, after)}")
        if r is None:
            continue
        s = shared(r, x)
        if s:
            raise Violation(f"{w}: the result shares mutable objects with the "
                            f"operand: {s}")
        for m in MUTS:
            try:
                m(r)
            except Exception:
                pass
        after = M.snap(x)
        if before != after:
            raise Violation(f"{w}: mutating the result changed the operand: "
                            f"{diff(before, after)}")
        rec.ok()
        rec.state((case, repr(op)))


def diff(a, b):
    """First difference of two nested tuples"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{len(a)} -> {len(b)} entries: {a!r:.200} -> {b!r:.200}"
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f"{a!r:.200} -> {b!r:.200}"


def chk_binary(case, rec):
    depth, default, sa, sb, side, op = case
    shape = (3,) * depth
    key = (shape, True, default, "C" * depth)
    w = f"{side} {sa!r} {op} {sb!r} default {default}"

    def make():
        ha, a = build(side, key, sa)
        hb, b = build(side, key, sb)
        return ha, a, hb, b

    ha, a, hb, b = make()
    before = M.snap(ha), M.snap(hb)
    r = BIN[op](a, b)
    rec.step()
    if (M.snap(ha), M.snap(hb)) != before:
        raise Violation(f"{w}: an operand changed: "
                        f"{diff(before, (M.snap(ha), M.snap(hb)))}")
    for h in (ha, hb):
        s = shared(r, h)
        if s:
            raise Violation(f"{w}: the result shares mutable objects with an "
                            f"operand: {s}")
    for m in MUTS:
        try:
            m(r)
        except Exception:
            pass
    if (M.snap(ha), M.snap(hb)) != before:
        raise Violation(f"{w}: mutating the result changed an operand")
    ha, a, hb, b = make()
    r = BIN[op](a, b)
    s = M.snap(r)
    for h in (ha, hb):
        for m in MUTS:
            try:
                m(h)
            except Exception:
                pass
    if M.snap(r) != s:
        raise Violation(f"{w}: mutating the operands changed the result")
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- observers

def points(x):
    """Some points, present and absent, of every length"""
    f = top(x)
    out = []

    def walk(f, pt, lim):
        cs = list(f.coords)[:3]
        absent = [c for c in range(3) if c not in f.coords][:1] + [7] \
            if all(isinstance(c, int) for c in cs) else []
        for c in cs + absent:
            out.append(pt + (c,))
        for c, p in zip(cs, f.payloads):
            if isinstance(p, Fiber):
                walk(p, pt + (c,), lim)
    walk(f, (), 3)
    return out


def drain(it):
    """Walks lazily produced values (fibers included); returns the leaves"""
    out = []
    for e in it:
        try:
            c, p = e
        except Exception:
            continue
        out.append(p)
        if isinstance(p, Fiber) and not p.isLazy():
            for _, q in p:
                out.append(q)
    return out


def deeper(f):
    """one below: absent coordinate of an interior fiber read as a fiber"""
    out = []
    for c in range(4):
        if c not in f.coords:
            out.append(f.getPayload(c))
    return out


def r_getpayload(x):
    out = []
    for pt in points(x):
        out.append(x.getPayload(*pt))
    return out


def r_getpayload_default(x):
    out = []
    for pt in points(x):
        out.append(top(x).getPayload(*pt, allocate=False, default=99))
        out.append(top(x).getPayload(*pt, allocate=False))
        out.append(top(x).getPayload(*pt, allocate=False, default=None))
    return out


def r_getpayload_startpos(x):
    f = top(x)
    return [f.getPayload(c, start_pos=0) for c in (0, 1, 2, 7)] \
        if f.coords else []


def r_getitem(x):
    f = top(x)
    out = []
    for i in range(len(f)):
        out.append(f[i])
        f[i:]
    f[:]
    return []


def r_iter(x):
    return drain(top(x))


def r_reversed(x):
    return drain(reversed(top(x)))


def r_modes(x):
    f = top(x)
    out = drain(f.iterOccupancy())
    out += drain(f.iterShape())
    out += drain(f.iterActive())
    out += drain(f.iterActiveShape())
    out += drain(f.iterRange(0, 2))
    out += drain(f.iterRangeShape(0, 3))
    out += drain(f.iterRangeShape(0, 3, 2))
    return out


def r_nested_shape(x):
    """dense traversal of every level"""
    out = []

    def walk(f):
        for c, p in f.iterShape():
            if isinstance(p, Fiber):
                walk(p)
            else:
                out.append(p)
    walk(top(x))
    return out


def r_lazy(x):
    f = top(x)
    g = copy.deepcopy(f)
    out = []
    for a, b in ((f, g), (g, f), (f, f)):
        out += drain(a & b)
        out += drain(a | b)
        out += drain(a ^ b)
        out += drain(a - b)
    out += drain(f.prune(lambda i, c, p: True))
    out += drain(f.prune(lambda i, c, p: i == 0))
    if all(isinstance(c, int) for c in f.coords):
        out += drain(f.project(lambda c: c + 1))
        out += drain(f.project(lambda c: 9 - c))
        out += drain(Fiber.coiterShape([f, g]))
        out += drain(Fiber.coiterActiveShape([f, g]))
        out += drain(Fiber.coiterRangeShape([f, g], 0, 3))
    return []


def r_lazy_absent(x):
    """payload tuples of unions hold synthesised defaults"""
    f = top(x)
    out = []
    e = Fiber([], [], default=f.getDefault(), shape=5)
    for a, b in ((f, e), (e, f)):
        list(a | b)
        list(a ^ b)
        list(a & b)
        list(a - b)
    return out


def r_intersections(x):
    f = top(x)
    g = copy.deepcopy(f)
    drain(Fiber.intersection(f, g))
    drain(Fiber.intersection(f, g, f))
    drain(Fiber.intersection(f, g, style="leader-follower"))
    drain(Fiber.union(f, g, f))
    drain(Fiber.fromLazy(f & g))
    return []


def r_populate_source(x):
    """populate reads its source"""
    f = top(x)
    z = Fiber([], [], default=0 if not (f.payloads and isinstance(
        f.payloads[0], Fiber)) else Fiber)
    for c, (ref, v) in z << f:
        if not isinstance(ref, Fiber):
            ref += 1
    return []


def r_compare(x):
    y = copy.deepcopy(x)
    x == y, y == x, x == x, x != y
    top(x) == top(y)
    top(x) == Fiber([], [])
    top(x) == 3
    return []


def r_queries(x):
    f = top(x)
    f.isEmpty(), f.countValues(), f.countValues(recursive=False), len(f)
    f.minCoord(), f.maxCoord(), f.getDepth(), f.getRankIds()
    f.getShape(), f.getShape(all_ranks=False), f.estimateShape()
    f.estimateShape(all_ranks=False), f.getActive(), f.getOwner()
    f.isLazy(), f.isOrdered(), f.isUnique(), f.getRankAttrs()
    f.getCoords(), f.getPayloads()
    if isinstance(x, Tensor):
        x.getRankIds(), x.getShape(), x.getShape(authoritative=True)
        x.getDepth(), x.getName(), x.getColor(), x.isMutable()
        x.countValues()
        for i in x.getRankIds():
            if not isinstance(i, list):
                x.getFormat(i)
        for r in x.ranks:
            r.getFibers(), r.getShape(), r.getId(), r.getNextRank()
            r.getShape(all_ranks=False), r.getShape(authoritative=True)
            r.getRankIds(), r.getRankIds(all_ranks=False), str(r), repr(r)
    return []


def r_default(x):
    f = top(x)
    out = [f.getDefault()]
    for g in fibers(f):
        out.append(g.getDefault())
    if isinstance(x, Tensor):
        out.append(x.getDefault())
        out += [r.getDefault() for r in x.ranks]
    return out


def r_uncompress(x):
    f = top(x)
    u = f.uncompress()

    def smash(u):
        for i, e in enumerate(u):
            if isinstance(e, list):
                smash(e)
            else:
                u[i] = "smashed"
        u.append("smashed")
    smash(u)
    return []


def r_print(x):
    str(x), repr(x), f"{x}"
    f = top(x)
    str(f), repr(f), f"{f}", f"{f:n}", f"{f:*}", f"{f:(02,03)n*}"
    f.print()
    if isinstance(x, Tensor):
        x.print(), x.print("title"), f"{x:n*}"
    return []


def r_yaml(x):
    p = os.path.join(os.environ["MC_SCRATCH"], f"c10-{os.getpid()}.yaml")
    x.dump(p)
    os.unlink(p)
    d = Fiber.fiber2dict(top(x))

    def smash(d):
        if isinstance(d, dict):
            for k in list(d):
                smash(d[k])
                d[k] = "smashed"
        elif isinstance(d, list):
            for e in d:
                smash(e)
            d.append("smashed")
    smash(d)
    return []


def r_footprint(x):
    if not isinstance(x, Tensor) or any(isinstance(i, list)
                                        for i in x.getRankIds()):
        return []
    for fmt in "CU":
        spec = {r: {"cbits": 3, "pbits": 5, "fhbits": 7, "rhbits": 11,
                    "format": fmt} for r in x.getRankIds()}
        m = Format(x, spec)
        m.getTensor(), m.getRoot()
        for r in x.getRankIds():
            m.getRank(r), m.getElem(r, "elem")
        m.getFiber(), m.getSubTree()
        for pt in points(x):
            if len(pt) < len(x.getRankIds()):
                m.getFiber(*pt)
                m.getSubTree(*pt)
    return []


def r_getrange(x):
    f = top(x)
    if f.coords and isinstance(f.coords[0], int):
        f.getRange(0, 2)
        f.getRange(1, 9)
    return []


def r_concat(x):
    f = top(x)
    if f.coords and isinstance(f.coords[0], int):
        g = copy.deepcopy(f)
        for i in range(len(g.coords)):
            g.coords[i] += 100
        f.concat(g) if hasattr(f, "concat") else None
    return []


def r_position(x):
    f = top(x)
    for c in (0, 1, 2, 7):
        if f.coords and isinstance(f.coords[0], tuple):
            continue
        f.getPosition(c) if hasattr(f, "getPosition") else None
    return []


def image(x, style, **kw):
    """(a tree the renderer cannot draw has the exception as its image)"""
    try:
        im = TensorImage(x, style=style, extent=(8, 12), **kw).im
        return im.size, im.tobytes()
    except Exception as e:
        return type(e).__name__, str(e)


def r_image_tree(x):
    image(x, "tree")
    return []


def r_image_unc(x):
    image(x, "uncompressed")
    return []


def r_swoop(x):
    """value operations are observers of their operand, too"""
    copy.deepcopy(x)
    f = top(x)
    f.nonEmpty()
    f.splitEqual(1)
    return []


ROPS = [r_getpayload, r_getpayload_default, r_getpayload_startpos, r_getitem,
        r_iter, r_reversed, r_modes, r_nested_shape, r_lazy, r_lazy_absent,
        r_intersections, r_populate_source, r_compare, r_queries, r_default,
        r_uncompress, r_print, r_yaml, r_footprint, r_getrange, r_concat,
        r_position, r_image_tree, r_image_unc, r_swoop]
RN = {f.__name__: f for f in ROPS}


def applicable(name, x, key):
    if name == "r_image_unc" and len(key[0]) > 3:
        return False
    return True


def chk_read(case, rec):
    key, spec, side, names = case
    w = f"{side} {describe(key, spec)}: {'; '.join(names)}"
    holder, x = build(side, key, spec)
    before = M.snap(holder)
    for n in names:
        RN[n](x)
        rec.step()
        after = M.snap(holder)
        if before != after:
            raise Violation(f"{w}: {n} changed the tree: "
                            f"{diff(before, after)}")
        rec.ok()
    rec.state(case)


# reads whose answers are fresh objects when the coordinate is not stored

FRESH = {"r_getpayload", "r_modes", "r_nested_shape", "r_default", "r_iter",
         "r_getpayload_default"}


def chk_fresh(case, rec):
    """changing what a read synthesised changes neither tree nor later reads"""
    key, spec, side, name = case
    w = f"{side} {describe(key, spec)}: {name}"
    holder, x = build(side, key, spec)
    own = reach(holder)
    before = M.snap(holder)
    got = RN[name](x)
    first = [M._freeze(p) for p in got]
    for p in got:
        if isinstance(p, Payload) and id(p) not in own:
            if isinstance(p.value, (int, float)):
                p += 1000
            else:
                p.value = 1000
        elif isinstance(p, Fiber) and id(p) not in own:
            p.coords.append(55)
            p.payloads.append(Payload(5))
            rec.outcome(name)
    after = M.snap(holder)
    if before != after:
        raise Violation(f"{w}: changing a synthesised payload changed the "
                        f"tree: {diff(before, after)}")
    again = [M._freeze(p) for p in RN[name](x)]
    if again != first:
        raise Violation(f"{w}: after the caller changed the defaults it had "
                        f"been given, a second read gives {again!r:.300}, the "
                        f"first gave {first!r:.300}")
    rec.step(2)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- images

HL = [{}, {"PE0": [(0, 1)]}, {"PE0": [(0,)], "PE1": [(1, 0), (0, 1)]}]


def chk_image(case, rec):
    key, spec, side, style, hl = case
    depth = len(key[0])
    w = f"{side} {describe(key, spec)}: image {style} highlights {HL[hl]}"
    holder, x = build(side, key, spec)
    high = {k: [p[:depth] for p in v] for k, v in HL[hl].items()}
    before = M.snap(holder)

    def draw():
        return image(x, style, highlights=copy.deepcopy(high))
    a = draw()
    if M.snap(holder) != before:
        raise Violation(f"{w}: rendering changed the tree: "
                        f"{diff(before, M.snap(holder))}")
    r_queries(x), r_print(x), r_modes(x)
    b = draw()
    require(a == b, "{}: two renderings differ", w)
    if M.snap(holder) != before:
        raise Violation(f"{w}: rendering changed the tree")
    if side == "tensor":
        require(image(copy.deepcopy(x), style,
                      highlights=copy.deepcopy(high)) == a,
                "{}: the image of a deep copy differs", w)
    rec.step(2)
    rec.ok()
    rec.state(case)
    rec.outcome(hash(a))


def chk_canvas(case, rec):
    """animating a tensor (also while it is being changed) does not change it
    beyond the changes the caller makes"""
    key, spec, anim, style, mutable = case
    depth = len(key[0])
    w = f"{describe(key, spec)}: canvas {anim} {style} mutable {mutable}"

    def play(draw):
        t = operand(key, spec)
        t.setMutable(mutable)
        c = TensorCanvas(t, animation=anim, style=style) if draw else None
        snaps = []
        for i, pt in enumerate(itertools.product(range(2), repeat=depth)):
            if mutable and i % 2:
                r = t.getPayloadRef(*pt)
                r <<= 50 + i
            before = M.snap(t)
            if draw:
                if i % 2:
                    c.addActivity(pt, worker="W0", spacetime=(0, i))
                else:
                    c.addActivity(pt, worker="W1", spacetime=(1, i))
                rec.step()
            if M.snap(t) != before:
                raise Violation(f"{w}: activity {i} changed the tensor: "
                                f"{diff(before, M.snap(t))}")
            snaps.append(M.snap(t, ids=False))
        if draw:
            before = M.snap(t)
            try:
                c.getLastFrame()
            except Exception as e:
                rec.outcome(type(e).__name__)
            if M.snap(t) != before:
                raise Violation(f"{w}: drawing the frames changed the tensor: "
                                f"{diff(before, M.snap(t))}")
        return snaps
    eq(play(True), play(False), f"{w}: tensor with and without a canvas")
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- arguments

def chk_args(case, rec):
    """operations do not keep or change the lists the caller passes"""
    spec, how = case
    t = M.mk_tensor(spec, 1, shape=(3,), rank_ids=["M"])
    w = f"{how} of {spec!r}"
    if how == "nonuniform":
        a = [0, 1]
        r = t.splitNonUniform(a)
        want = [0, 1]
    elif how == "unequal":
        a = [1, 1]
        r = t.splitUnEqual(a)
        want = [1, 1]
    elif how == "Fiber":
        a = [[0, 2], [4, 5]]
        r = Fiber(a[0], a[1], shape=3)
        want = [[0, 2], [4, 5]]
        s = M.raw(r)
        eq(a, want, f"{w}: argument")
        raise Skip("construction keeps the caller's lists by design")
    elif how == "ranks":
        a = ["M"]
        r = Tensor(rank_ids=a, shape=[3])
        want = ["M"]
    elif how == "setRankIds":
        a = ["Q"]
        r = t.setRankIds(a)
        want = ["Q"]
        r = t
    elif how == "swizzle":
        t = Tensor.fromUncompressed(["M", "N"], [[1, 2], [0, 3]])
        a = ["N", "M"]
        r = t.swizzleRanks(a)
        want = ["N", "M"]
    elif how == "fromFiber":
        a = (["M"], [3])
        r = Tensor.fromFiber(a[0], M.mk_fiber(spec, 1), a[1])
        want = (["M"], [3])
    elif how == "uncompressed":
        a = [4, 0, 5]
        r = Tensor.fromUncompressed(["M"], a)
        want = [4, 0, 5]
    eq(a, want, f"{w}: argument after the call")
    s = M.snap(r)
    for x in a if isinstance(a, tuple) else (a,):
        x.append(99)
        x[0] = 98
    require(M.snap(r) == s, "{}: changing the argument changed the result", w)
    rec.step()
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"

    def pool(shape, default, explicit=True):
        return list(M.specs(shape, M.linval(shape, 10), default,
                            explicit=explicit))

    def spread(specs, n):
        if len(specs) <= n:
            return specs
        return [specs[i * (len(specs) - 1) // (n - 1)] for i in range(n)]

    def trees(n2, n3):
        """(key, spec)"""
        for default in (0, 3):
            for auth in (True, False):
                for depth, shape, decl, n in ((1, (3,), (4,), 27),
                                              (2, (2, 2), (3, 4), n2),
                                              (3, (2, 2, 2), (2, 3, 2), n3)):
                    for fmts in ("C" * depth, "U" * depth, "C" * (depth - 1)
                                 + "U", "U" + "C" * (depth - 1)):
                        for spec in spread(pool(shape, default), n) \
                                if depth < 3 else spread(deep(default), n):
                            if not auth and not M.stored(spec, depth):
                                continue
                            yield (decl, auth, default, fmts), spec

    cache = {}

    def deep(default):
        if default not in cache:
            base = spread(list(M.specs((2, 2), lambda pt: 0, default)), 9)
            val = M.linval((2, 2, 2), 10)

            def fill(s, i):
                return tuple((c, tuple((d, default if v == default and
                                        (i + c + d) % 2 else val((i, c, d)))
                                       for d, v in r)) for c, r in s)
            out = [()]
            for a in base:
                out.append(((0, fill(a, 0)),))
                out.append(((1, fill(a, 1)),))
                for b in base:
                    out.append(((0, fill(a, 0)), (1, fill(b, 1))))
            cache[default] = out
        return cache[default]

    def value():
        for key, spec in trees(81 if not q else 25, 14 if q else 60):
            depth = len(key[0])
            ids = IDS[:depth]
            alpha = xform.alphabet(depth, (2,) * depth, ids)
            if key[3] != "C" * depth and q:
                alpha = alpha[::3] if key[3] == "U" * depth else alpha[1::3]
            for x in alpha:
                yield (key, spec, "tensor", ("t",) + x, False)
            for side in ("root", "unowned", "inner"):
                d = depth - (1 if side == "inner" else 0)
                if d == 0:
                    continue
                if side == "unowned" and key[3] != "C" * depth:
                    continue
                for op in FOPS:
                    if op in DEEP and d < 2:
                        continue
                    if op in ARITH and key[2] != 0:
                        continue
                    if op == "flatten-linear" and not key[1]:
                        continue
                    yield (key, spec, side, op, False)
            if depth > 1 and M.stored(spec, depth):
                for side in ("root", "unowned"):
                    for op in FLAT:
                        yield (key, spec, side, op, True)

    def large():
        for decl, specs in (((72,), M.wide(70, M.linval((70,), 10))[::5]),
                            ((12, 9), M.lattice((12, 9), M.linval(
                                (12, 9), 10))[::7]),
                            ((40, 2), M.lattice((40, 2), M.linval(
                                (40, 2), 10))[::7])):
            depth = len(decl)
            for spec in specs:
                for fmts in ("C" * depth, "U" * depth):
                    key = (decl, True, 0, fmts)
                    for x in xform.alphabet(depth, (2,) * depth, IDS[:depth]):
                        yield (key, spec, "tensor", ("t",) + x, False)
                    for side in ("root", "unowned"):
                        if side == "unowned" and "U" in fmts:
                            continue
                        for op in FOPS:
                            if op not in DEEP or depth > 1:
                                yield (key, spec, side, op, False)

    def chain():
        for key, spec in trees(9 if q else 27, 7 if q else 24):
            if len(key[0]) < 2 or not spec:
                continue
            if q and (key[2] != 0 or key[3] not in ("C" * len(key[0]),
                                                    "U" * len(key[0]))):
                continue
            for prior in PRIOR:
                if prior == "flatten-twice" and len(key[0]) < 3:
                    continue
                yield (key, spec, prior)

    def binary():
        one = pool((3,), 0)
        two = spread(pool((2, 2), 0), 30 if q else 81)
        for side in ("root", "unowned"):
            for op in BIN:
                for a, b in itertools.product(one, repeat=2):
                    yield (1, 0, a, b, side, op)
                for a, b in itertools.product(two, repeat=2):
                    yield (2, 0, a, b, side, op)

    def read():
        for key, spec in trees(81 if not q else 27, 16 if q else 60):
            for side in ("tensor", "unowned", "inner"):
                if side == "inner" and len(key[0]) == 1:
                    continue
                if side == "unowned" and key[3] != "C" * len(key[0]):
                    continue
                for n in RN:
                    yield (key, spec, side, (n,))

    def pairs():
        for key, spec in trees(5 if q else 27, 2 if q else 9):
            if q and len(key[0]) == 1 and len(spec) < 3:
                continue
            if key[3] not in ("C" * len(key[0]), "U" * len(key[0])):
                continue
            for a, b in itertools.product(
                    [n for n in RN if not n.startswith("r_image")], repeat=2):
                yield (key, spec, "tensor", (a, b))

    def fresh():
        for key, spec in trees(81, 30):
            for side in ("tensor", "unowned", "inner"):
                if side == "inner" and len(key[0]) == 1:
                    continue
                for n in sorted(FRESH):
                    yield (key, spec, side, n)

    def images():
        for key, spec in trees(12 if q else 81, 6 if q else 40):
            for side in ("tensor", "unowned"):
                if side == "unowned" and key[3] != "C" * len(key[0]):
                    continue
                for style in ("tree", "uncompressed", "tree+uncompressed"):
                    for hl in range(len(HL)):
                        if q and style == "tree+uncompressed" and hl != 2:
                            continue
                        yield (key, spec, side, style, hl)

    def canvas():
        for depth, shape in ((1, (2,)), (2, (2, 2))):
            for spec in spread(pool(shape, 0), 3 if q else 12):
                for anim in ("movie", "spacetime", "none"):
                    for style in ("tree", "uncompressed"):
                        for mutable in (False, True):
                            yield ((shape, True, 0, "C" * depth), spec, anim,
                                   style, mutable)

    def args():
        for spec in pool((3,), 0):
            for how in ("nonuniform", "unequal", "ranks", "setRankIds",
                        "swizzle", "fromFiber", "uncompressed"):
                yield (spec, how)

    return [
        Family("value", value, chk_value, "trees of depth 1-3 x shape source x "
               "2 defaults x 4 format assignments x owned / unowned / inner x "
               "every value-returning operation x 10 follow-up mutations on "
               "either side"),
        Family("large", large, chk_value, "70, 12x9 and 40x2 coordinates x "
               "every value-returning operation"),
        Family("chain", chain, chk_chain, "trees of depth 2-3 that went "
               "through one of 13 transforms x every transform of the result"),
        Family("binary", binary, chk_binary, "all pairs of fibers (3,), pairs "
               "of (2,2) trees x + and * x ownership"),
        Family("observers", read, chk_read, "the same trees x 25 groups of "
               "read-only operations"),
        Family("observer-pairs", pairs, chk_read, "trees x all ordered pairs "
               "of read-only groups"),
        Family("fresh", fresh, chk_fresh, "trees x 6 reads whose synthesised "
               "answers are modified by the caller"),
        Family("images", images, chk_image, "trees x formats x 3 styles x 3 "
               "highlight sets, rendered twice and from a copy"),
        Family("canvas", canvas, chk_canvas, "trees x 3 animations x 2 styles "
               "x mutability, one activity per point"),
        Family("arguments", args, chk_args, "27 fibers x 7 calls that take "
               "lists"),
    ]
