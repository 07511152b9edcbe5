"""C14 - rank ids, shapes, defaults, formats and active ranges follow the data."""

import copy
import itertools
import os

from fibertree import Fiber, Payload, Tensor

from .. import model as M
from .. import xform
from ..core import Family, Skip, Violation, eq, require

RULE = ("Every transform (and every sequence of two transforms) of the alphabet "
        "is executed on every tree of the bound under every assignment of "
        "formats, mutability, default and shape source; rank ids, shape, leaf "
        "default, formats of the ranks that persist, and mutability of the "
        "result are compared with a model that rearranges the operand's "
        "attribute lists, and every fiber of every result is checked for "
        "coordinates inside its shape and active range. Lazily produced fibers "
        "are compared with the attributes the operation defines, for every "
        "pair of operands x active ranges x ids x ownership; joining a tensor "
        "is exercised along every path an unowned fiber can take.")
ASSUMPTIONS = [
    "the format of a rank that a flatten, merge or unflatten creates is not "
    "specified and not checked",
    "merging with relative coordinates is checked for shape and active range "
    "when it undoes a relative split (otherwise the sum of coordinates has no "
    "shape obtained by re-arrangement)",
    "the active range of a fiber merged with linear coordinates is unbounded",
    "the rank id of a projection made without rank_id is 'Unknown' (an "
    "existing test requires it) and not checked",
    "assigning a fiber with another default to the fiber of a leaf rank (<<=) "
    "changes the default of the rank; that combination is excluded",
    "tensors whose coordinates a caller moved outside the shape it declared "
    "are outside the claim",
]

IDS = ["M", "N", "K", "J"]


def flat_ids(ids, d, lv):
    out = []
    for i in ids[d:d + lv + 1]:
        out += i if isinstance(i, list) else [i]
    return ids[:d] + [out] + ids[d + lv + 1:]


def flat_shape(shape, d, lv, style):
    s = shape[d:d + lv + 1]
    if style == "tuple":
        new = ()
        for x in s:
            new += x if isinstance(x, tuple) else (x,)
    elif style == "pair":
        new = s[-1]
        for x in reversed(s[:-1]):
            new = (x, new)
    elif style == "linear":
        new = 1
        for x in s:
            new *= x
    elif style == "absolute":
        new = s[-1]
    else:
        new = None                      # not determined by re-arrangement
    return shape[:d] + [new] + shape[d + lv + 1:]


class Attrs:
    """What a tensor must report. shape None: not authoritative; an entry None
    of shape / fmts: not specified"""

    def __init__(self, ids, shape, default, fmts, mutable, relative=None):
        self.ids, self.shape, self.default = ids, shape, default
        self.fmts, self.mutable = fmts, mutable
        self.relative = relative        # id whose split was relative


def expect(a, x):
    """Attributes after transform x, or None if x does not apply"""
    k = x[0]
    ids, fm = list(a.ids), list(a.fmts)
    sh = list(a.shape) if a.shape is not None else None
    rel = None
    if k in ("deepcopy", "updatePayloads"):
        rel = a.relative
    elif k == "updateCoords":
        if isinstance(ids[x[1]], list):
            return None
        if sh and sh[x[1]] is not None:
            sh[x[1]] += 1
        elif sh is None:
            pass                        # estimated
        else:
            return None
    elif k == "swizzle":
        g = [ids.index(i) for i in x[1]]
        ids = [ids[i] for i in g]
        fm = [fm[i] for i in g]
        sh = [sh[i] for i in g] if sh else None
    elif k == "swap":
        d = x[1]
        for lst in (ids, fm) + ((sh,) if sh else ()):
            lst[d], lst[d + 1] = lst[d + 1], lst[d]
    elif k in ("flatten", "merge"):
        d, lv, st = x[1:]
        if st == "linear" and (sh is None or any(
                not isinstance(s, int) for s in sh[d:d + lv + 1])):
            return None
        if st in ("linear", "absolute", "relative") and any(
                isinstance(i, list) for i in ids[d:d + lv + 1]):
            return None
        ids = flat_ids(ids, d, lv)
        fm = fm[:d] + [None] + fm[d + lv + 1:]
        if sh and any(s is None for s in sh[d:d + lv + 1]):
            sh = sh[:d] + [None] + sh[d + lv + 1:]
        elif sh:
            sh = flat_shape(sh, d, lv, st)
    elif k == "flatunflat":
        d, lv = x[1], x[2]
        if any(isinstance(i, list) for i in ids[d:d + lv + 1]):
            return None
        fm = [None if d <= i <= d + lv else f for i, f in enumerate(fm)]
    elif k in ("uniform", "nonuniform", "equal", "unequal", "uniform-halo",
               "div", "floordiv", "splitflat"):
        d = 0 if k in ("div", "floordiv") else x[1]
        if isinstance(ids[d], list):
            return None
        i = ids[d]
        ids[d:d + 1] = [i + ".1", i + ".0"]
        fm.insert(d, fm[d])
        if sh:
            sh.insert(d, sh[d])
        if k == "splitflat":
            ids = flat_ids(ids, d, 1)
            fm[d:d + 2] = [None]
            if sh:
                del sh[d]
        elif len(x) > 3 and x[3] is True:
            rel = i
    else:
        return None
    return Attrs(ids, sh, a.default, fm, a.mutable, rel)


def inside(c, s):
    """coordinate c lies inside shape s"""
    if isinstance(s, tuple):
        return isinstance(c, tuple) and len(c) == len(s) and \
            all(inside(x, y) for x, y in zip(c, s))
    return isinstance(c, int) and 0 <= c < s


def in_range(c, start, end):
    return start <= c < end


def walk(f):
    stack = [(f, 0)]
    while stack:
        g, lvl = stack.pop()
        yield g, lvl
        for p in g.payloads:
            if isinstance(p, Fiber):
                stack.append((p, lvl + 1))


def elems(it):
    return [(c, id(p)) for c, p in it]


def containment(root, w, skip_shape=(), skip_active=()):
    """every stored coordinate inside shape and active range of its fiber"""
    for f, lvl in walk(root):
        s = f.getShape(all_ranks=False)
        a = f.getActive()
        require(isinstance(a, tuple) and len(a) == 2, "{}: active range {!r}",
                w, a)
        for c in f.coords:
            if lvl not in skip_shape and not inside(c, s):
                raise Violation(f"{w}: level {lvl}: coordinate {c!r} outside "
                                f"shape {s!r}")
            if lvl not in skip_active and not in_range(c, *a):
                raise Violation(f"{w}: level {lvl}: coordinate {c!r} outside "
                                f"active range {a!r}")
        if lvl not in skip_active:
            got, want = elems(f.iterActive()), elems(f.iterOccupancy())
            if got != want:
                raise Violation(f"{w}: level {lvl}: active-range iteration "
                                f"{[c for c, _ in got]} differs from occupancy "
                                f"iteration {[c for c, _ in want]}")


def delegation(t, w):
    """every fiber of the tensor reports its rank's attributes"""
    full = t.getShape()
    for f, lvl in walk(t.getRoot()):
        r = t.ranks[lvl]
        require(f.getRankAttrs() is r.getAttrs(), "{}: level {}: the "
                "attributes of the fiber are not those of its rank", w, lvl)
        if r.getShape(all_ranks=False) is not None:
            # (a rank need not keep the estimate of its shape)
            eq(f.getShape(all_ranks=False), r.getShape(all_ranks=False),
               f"{w}: level {lvl}: shape of fiber vs rank")
        if lvl == 0 and None not in full:
            eq(f.getShape(), full, f"{w}: shape of root vs tensor")
        eq(repr(f.getDefault()), repr(r.getDefault()),
           f"{w}: level {lvl}: default of fiber vs rank")
        eq(f.getRankAttrs().getFormat(), t.getFormat(r.getId()),
           f"{w}: level {lvl}: format")


def verify(t, a, w, active=True):
    require(isinstance(t, Tensor), "{}: not a tensor", w)
    eq(t.getRankIds(), a.ids, f"{w}: rank ids")
    if a.shape is not None:
        sh = t.getShape()
        eq(len(sh), len(a.shape), f"{w}: length of shape {sh}")
        for i, (g, s) in enumerate(zip(sh, a.shape)):
            if s is not None:
                eq(g, s, f"{w}: shape of rank {a.ids[i]} in {sh}")
        if None not in a.shape:
            eq(t.getShape(authoritative=True), a.shape,
               f"{w}: authoritative shape")
            for i in range(len(a.ids)):
                eq(t.getShape(rank_id=a.ids[i]) if False else
                   t.ranks[i].getShape(all_ranks=False, authoritative=True),
                   a.shape[i], f"{w}: authoritative shape of {a.ids[i]}")
    eq(M.unbox(t.getDefault()), a.default, f"{w}: leaf default")
    eq(type(M.unbox(t.getDefault())), type(a.default), f"{w}: type of default")
    for i, (rid, f) in enumerate(zip(a.ids, a.fmts)):
        if f is not None:
            eq(t.getFormat(rid), f, f"{w}: format of {rid}")
    eq(t.isMutable(), a.mutable, f"{w}: mutability hint")
    # ranks of unspecified shape made by relative/absolute merges
    skip = [i for i, s in enumerate(a.shape or []) if s is None]
    containment(t.getRoot(), w, skip_shape=skip, skip_active=skip)
    delegation(t, w)


# ---------------------------------------------------------------- transforms

def operand(key, spec):
    shape, auth, default, fmts, mutable = key
    depth = len(shape)
    ids = IDS[:depth]
    t = M.mk_tensor(spec, depth, shape=shape if auth else None,
                    default=default, rank_ids=ids, fmts=fmts, name="T",
                    fiber_shape=auth)
    t.setMutable(mutable)
    a = Attrs(ids, list(shape) if auth else None, default, list(fmts), mutable)
    return t, a


def usable(a, x):
    """generic exclusions"""
    k = x[0]
    if k == "merge" and x[3] == "relative":
        d, lv = x[1], x[2]
        # only the inverse of a relative split
        return lv == 1 and a.relative is not None and \
            a.ids[d:d + 2] == [a.relative + ".1", a.relative + ".0"]
    if k in ("splitflat",) and a.ids and isinstance(a.ids[x[1]], list):
        return False
    return True


def chk_transform(case, rec):
    key, spec, xs = case
    t, a = operand(key, spec)
    w = f"tensor {spec!r} shape {key[0] if key[1] else None} default " \
        f"{key[2]!r} formats {key[3]} mutable {key[4]}"
    verify(t, a, w)
    for x in xs:
        if x[0] == "swizzle*":
            if x[1] >= len(a.ids) or any(isinstance(i, list) for i in a.ids) \
                    and False:
                raise Skip("n/a")
            x = ("swizzle", a.ids[x[1]:] + a.ids[:x[1]])
        elif x[0] == "last":
            x = (x[1], len(a.ids) - 1) + x[2:]
        if not usable(a, x):
            raise Skip("not applicable")
        d = x[1] if len(x) > 1 and isinstance(x[1], int) else 0
        need = {"swap": 1, "flatten": x[2] if len(x) > 2 else 0,
                "merge": x[2] if len(x) > 2 else 0,
                "flatunflat": x[2] if len(x) > 2 else 0}.get(x[0], 0)
        if x[0] not in ("div", "floordiv", "swizzle") and \
                isinstance(x[1] if len(x) > 1 else 0, int) and \
                d + need >= len(a.ids):
            raise Skip("not deep enough")
        na = expect(a, x)
        if na is None:
            raise Skip("not applicable")
        if x[0] == "merge" and x[3] == "relative" and na.shape:
            na.shape[x[1]] = a.shape[x[1]]
        if x[0] == "updateCoords":
            # the caller declares the shape, as the alphabet does
            r = t.updateCoords(lambda i, c, p: c + 1, depth=x[1],
                               new_shape=t.getShape()[x[1]] + 1)
        else:
            r = xform.apply(t, x)
        w += f" -> {x}"
        # halos put elements outside the active range of their partition
        t, a = r, na
        if x[0] == "uniform-halo":
            halo_checks(t, a, w)
            break
        if x[0] in ("flatten",) and x[3] == "linear":
            pass
        verify(t, a, w)
        if x[0] in ("equal", "unequal", "div", "floordiv", "uniform",
                    "nonuniform"):
            # both halves share the id of the rank that was split
            pass
        rec.step()
    rec.ok()
    rec.state((key[0], key[1], spec, xs))
    rec.outcome((tuple(map(repr, a.ids)), repr(a.shape)))


def halo_checks(t, a, w):
    eq(t.getRankIds(), a.ids, f"{w}: rank ids")
    if a.shape:
        eq(t.getShape(authoritative=True), a.shape, f"{w}: shape")
    eq(M.unbox(t.getDefault()), a.default, f"{w}: default")
    for rid, f in zip(a.ids, a.fmts):
        eq(t.getFormat(rid), f, f"{w}: format of {rid}")
    eq(t.isMutable(), a.mutable, f"{w}: mutability")
    delegation(t, w)


# ---------------------------------------------------------------- constructors

def chk_ctor(case, rec):
    shape, spec, default, how = case
    depth = len(shape)
    ids = IDS[:depth]
    w = f"{how} {spec!r} shape {shape} default {default!r}"
    cont = M.content(spec, depth, default)
    fm = ["C"] * depth
    sh = list(shape)
    mutable = False
    if how == "fromFiber-none":
        t = Tensor.fromFiber(ids, M.mk_fiber(spec, depth, default),
                             default=default)
        sh = None
    elif how == "fromFiber-fibershape":
        t = Tensor.fromFiber(ids, M.mk_fiber(spec, depth, default, shape),
                             default=default)
        # only the fibers that exist bring their shape
        lv = M.fibers_of(spec, depth)
        sh = [s if lv[i] else None for i, s in enumerate(shape)]
        if None in sh:
            sh = None
    elif how == "fromFiber-noids":
        t = Tensor.fromFiber(fiber=M.mk_fiber(spec, depth, default, shape),
                             shape=sh, default=default)
        ids = [f"R{depth - 1 - i}" for i in range(depth)]
    elif how == "setRoot":
        t = Tensor(rank_ids=ids, shape=sh, default=default)
        t.setRoot(M.mk_fiber(spec, depth, default))
        mutable = True
    elif how == "setRoot-owned":
        t = Tensor(rank_ids=ids, shape=sh, default=default)
        o = M.mk_tensor(spec, depth, shape=[s + 0 for s in shape],
                        default=default, rank_ids=["A", "B", "C", "D"][:depth],
                        fmts="U" * depth)
        t.setRoot(o.getRoot())
        mutable = True
    elif how == "uncompressed":
        t = Tensor.fromUncompressed(ids, dense(cont, shape, default),
                                    default=default)
    elif how == "reference":
        t = Tensor(rank_ids=ids, shape=sh, default=default)
        for pt, v in sorted(cont.items()):
            r = t.getPayloadRef(*pt)
            r <<= v
        mutable = True
    elif how == "reference-noshape":
        t = Tensor(rank_ids=ids, default=default)
        for pt, v in sorted(cont.items(), reverse=True):
            r = t.getPayloadRef(*pt)
            r <<= v
        mutable = True
        sh = None
    elif how == "yaml":
        t0 = M.mk_tensor(spec, depth, shape=shape, default=default)
        p = os.path.join(os.environ["MC_SCRATCH"], f"c14-{os.getpid()}.yaml")
        t0.dump(p)
        t = Tensor.fromYAMLfile(p)
        os.unlink(p)
    elif how == "unowned":
        f = M.mk_fiber(spec, depth, default)
        containment(f, w)
        if M.stored(spec, depth):
            want = []
            for lvl, fs in enumerate(M.fibers_of(spec, depth)):
                cs = [c for s in fs for c, _ in s]
                want.append(max(cs) + 1 if cs else 0)
            eq(f.estimateShape(), want, f"{w}: estimated shape")
            eq(f.getShape(), want, f"{w}: shape")
        rec.ok()
        rec.state(case)
        return
    elif how == "unowned-shaped":
        f = M.mk_fiber(spec, depth, default, shape)
        containment(f, w)
        for g, lvl in walk(f):
            eq(g.getShape(all_ranks=False), shape[lvl], f"{w}: level {lvl}")
            eq(g.getShape(all_ranks=False, authoritative=True), shape[lvl],
               f"{w}: level {lvl}")
            eq(g.getActive(), (0, shape[lvl]), f"{w}: active range")
        rec.ok()
        rec.state(case)
        return
    a = Attrs(ids, sh, default, fm, mutable)
    verify(t, a, w)
    if sh is None:
        # an estimated shape is the smallest that holds the elements
        got = t.getShape()
        eq(t.getShape(authoritative=True), None, f"{w}: authoritative shape")
        if how == "fromFiber-none":
            for lvl, fs in enumerate(M.fibers_of(spec, depth)):
                cs = [c for s in fs for c, _ in s]
                if cs:
                    eq(got[lvl], max(cs) + 1, f"{w}: estimated shape of "
                       f"rank {lvl}")
    rec.ok()
    rec.state(case)
    rec.outcome((how, repr(t.getShape())))


def dense(cont, shape, default, pt=()):
    if len(pt) == len(shape):
        return cont.get(pt, default)
    return [dense(cont, shape, default, pt + (i,))
            for i in range(shape[len(pt)])]


# ---------------------------------------------------------------- joining

JOIN = ["setRoot", "fromFiber", "append", "assign", "extend", "ilshift",
        "insert"]


def chk_join(case, rec):
    """an unowned fiber with attributes of its own enters a tensor"""
    spec, how, default, fmt, fdefault, ffmt, fshape = case
    shape = (6, 5)
    f = M.mk_fiber(spec, 1, fdefault, (fshape,) if fshape else None)
    f.getRankAttrs().setId("Q").setFormat(ffmt)
    w = f"{how} of {spec!r} (default {fdefault}, format {ffmt}, shape " \
        f"{fshape}) into a tensor with default {default}, format {fmt}"
    if how in ("setRoot", "fromFiber"):
        if how == "setRoot":
            t = Tensor(rank_ids=["M"], shape=[5], default=default)
            t.setRoot(f)
        else:
            t = Tensor.fromFiber(["M"], f, shape=[5], default=default)
        t.setFormat("M", fmt)
        rank, rid = t.ranks[0], "M"
    else:
        t = Tensor(rank_ids=["M", "N"], shape=list(shape), default=default)
        t.setFormat("N", fmt)
        root = t.getRoot()
        if how == "append":
            root.append(2, f)
        elif how == "insert":
            root.getPayloadRef(1)
            root.insert(0, f)
        elif how == "assign":
            root.getPayloadRef(3)
            root[0] = f
        elif how == "extend":
            root.extend(Fiber([4], [f]))
            if not f.coords:
                # extending with an empty fiber is a no-op
                raise Skip("empty")
        elif how == "ilshift":
            if fdefault != default:
                raise Skip("ambiguous")
            r = root.getPayloadRef(3)
            r <<= f
            f = r
        rank, rid = t.ranks[1], "N"
    rec.step()
    require(f.getOwner() is rank, "{}: owner is {!r}", w, f.getOwner())
    eq(f.getRankAttrs().getId(), rid, f"{w}: rank id")
    eq(M.unbox(f.getDefault()), default, f"{w}: default")
    eq(f.getRankAttrs().getFormat(), fmt, f"{w}: format")
    eq(f.getShape(all_ranks=False), rank.getShape(all_ranks=False),
       f"{w}: shape")
    eq(f.getShape(all_ranks=False), 5, f"{w}: shape")
    eq(M.unbox(f.getPayload(4)) if not M.lookup(spec, 4) else default,
       default, f"{w}: read of an absent coordinate")
    want = [c for c in range(5)] if fmt == "U" else \
        [c for c, v in spec if v != default]
    got = [c for c, _ in f]
    eq(got, want, f"{w}: elements presented")
    M.check_tensor(t, w)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- lazy

BIN = {
    "&": lambda a, b: a & b,
    "|": lambda a, b: a | b,
    "^": lambda a, b: a ^ b,
    "-": lambda a, b: a - b,
    "intersection2": lambda a, b: Fiber.intersection(a, b),
    "leader": lambda a, b: Fiber.intersection(a, b, style="leader-follower"),
    "intersection3": lambda a, b: Fiber.intersection(a, b, a),
    "union2": lambda a, b: Fiber.union(a, b),
    "union3": lambda a, b: Fiber.union(a, b, b),
    "prune": lambda a, b: a.prune(lambda i, c, p: True),
    "project": lambda a, b: a.project(rank_id=a.getRankAttrs().getId()),
}


def lazy_operand(spec, own, rid, fmt, active, default, shape=5):
    if own:
        t = M.mk_tensor(spec, 1, shape=(shape,), default=default,
                        rank_ids=[rid])
        f = t.getRoot()
    else:
        f = M.mk_fiber(spec, 1, default, (shape,))
        f.getRankAttrs().setId(rid)
    f.getRankAttrs().setFormat(fmt)
    if active:
        f.setActive(active)
    return f


def chk_lazy(case, rec):
    op, sa, sb, owna, ownb, acta, actb, fmt = case
    a = lazy_operand(sa, owna, "A", fmt, acta, 0)
    b = lazy_operand(sb, ownb, "B", "C", actb, 0, shape=6)
    w = f"{op} of {sa!r} (active {acta}) and {sb!r} (active {actb}), owned " \
        f"{owna}/{ownb}, format {fmt}"
    wa = acta or (0, 5)
    wb = actb or (0, 6)
    if op == "<<":
        z = a << b
        eq(z.getRankAttrs().getId(), "A", f"{w}: rank id")
        eq(z.getActive(), wb, f"{w}: active range")
        for _, (r, v) in z:
            r <<= v
        z = None
    else:
        z = BIN[op](a, b)
        eq(z.getRankAttrs().getId(), "A", f"{w}: rank id")
        eq(z.getActive(), wa, f"{w}: active range")
        g = Fiber.fromLazy(z)
        eq(g.getActive(), wa, f"{w}: active range of the materialised fiber")
        rec.step()
    eq(a.getRankAttrs().getId(), "A", f"{w}: id of the first operand")
    eq(b.getRankAttrs().getId(), "B", f"{w}: id of the second operand")
    if op != "<<":
        eq(a.getActive(), wa, f"{w}: active range of the first operand")
    eq(b.getActive(), wb, f"{w}: active range of the second operand")
    rec.step()
    rec.ok()
    rec.state(case)


def chk_chain(case, rec):
    """expressions of two lazy operators"""
    o1, o2, sa, sb, sc, acts = case
    fs = [lazy_operand(s, i % 2 == 0, "ABC"[i], "C", act, 0)
          for i, (s, act) in enumerate(zip((sa, sb, sc), acts))]
    w = f"(a {o1} b) {o2} c, operands {sa!r} {sb!r} {sc!r} active {acts}"
    wa = [act or (0, 5) for act in acts]
    z = BIN[o1](fs[0], fs[1])
    if o2 == "<<":
        y = fs[2] << z
        eq(y.getRankAttrs().getId(), "C", f"{w}: rank id")
        eq(y.getActive(), wa[0], f"{w}: active range")
    elif o2 == "project":
        y = z.project(trans_fn=lambda c: c + 2, rank_id="Z")
        eq(y.getRankAttrs().getId(), "Z", f"{w}: rank id")
        eq(y.getActive(), (wa[0][0] + 2, wa[0][1] + 2), f"{w}: active range")
    elif o2 == "right":
        y = BIN[o1](fs[2], z)
        eq(y.getRankAttrs().getId(), "C", f"{w}: rank id")
        eq(y.getActive(), wa[2], f"{w}: active range")
    else:
        y = BIN[o2](z, fs[2])
        eq(y.getRankAttrs().getId(), "A", f"{w}: rank id")
        eq(y.getActive(), wa[0], f"{w}: active range")
    rec.step(2)
    rec.ok()
    rec.state(case)


def chk_project(case, rec):
    spec, own, act, sc, off, interval, rid = case
    f = lazy_operand(spec, own, "A", "C", act, 0)
    fn = (lambda c: c + off) if sc == 1 else (lambda c: off - c) \
        if sc == -1 else (lambda c: 2 * c + off)
    w = f"project c -> {sc}*c+{off} of {spec!r} active {act}, interval " \
        f"{interval}, rank_id {rid!r}"
    z = f.project(trans_fn=fn, interval=interval, rank_id=rid)
    lo, hi = act or (0, 5)
    if interval is not None:
        want = interval
    else:
        ends = sorted((fn(lo), fn(hi - 1)))
        want = (ends[0], ends[1] + 1)
    eq(z.getActive(), want, f"{w}: active range")
    if rid is not None:
        eq(z.getRankAttrs().getId(), rid, f"{w}: rank id")
    g = Fiber.fromLazy(z)
    for c in g.coords if act is None or interval is not None else ():
        if not in_range(c, *z.getActive()):
            raise Violation(f"{w}: coordinate {c} outside {z.getActive()}")
    rec.ok()
    rec.state(case)
    rec.outcome((z.getActive(), tuple(g.coords)))


CO = ["coiterShape", "coiterActiveShape", "coiterRangeShape"]


def chk_coiter(case, rec):
    how, sa, sb, acta, actb = case
    a = lazy_operand(sa, True, "A", "C", acta, 0)
    b = lazy_operand(sb, False, "B", "C", actb, 0)
    w = f"{how} of {sa!r} active {acta}, {sb!r} active {actb}"
    for ref in ("", "Ref"):
        fn = getattr(Fiber, how + ref)
        z = fn([a, b], 1, 4) if "Range" in how else fn([a, b])
        eq(z.getRankAttrs().getId(), "A", f"{w}{ref}: rank id")
        got = [c for c, _ in z]
        lo, hi = {"coiterShape": (0, 5), "coiterActiveShape": acta or (0, 5),
                  "coiterRangeShape": (1, 4)}[how]
        eq(got, list(range(lo, hi)), f"{w}{ref}: coordinates")
        for c in got:
            if not in_range(c, *z.getActive()):
                raise Violation(f"{w}{ref}: coordinate {c} outside active "
                                f"range {z.getActive()}")
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"

    def pool(shape, default, explicit=True):
        return list(M.specs(shape, M.linval(shape, 10), default,
                            explicit=explicit))

    def spread(specs, n):
        """n members spread over the list, both ends included"""
        if len(specs) <= n:
            return specs
        return [specs[i * (len(specs) - 1) // (n - 1)] for i in range(n)]

    # bounding shapes of the trees and declared shapes (all dimensions differ)
    B = {1: (3,), 2: (2, 2), 3: (2, 1, 2)}
    D = {1: (4,), 2: (3, 4), 3: (3, 2, 4)}

    def one():
        for depth in (1, 2, 3):
            alpha = [x for x in xform.alphabet(depth, B[depth], IDS[:depth])
                     if x[0] not in ("copy", "fromFiber", "setRoot", "yaml",
                                     "uncompress", "nonEmpty")]
            allspecs = pool(B[depth], 0, explicit=depth < 3 or not q)
            for spec in allspecs:
                for auth in (True, False):
                    if not auth and not M.stored(spec, depth):
                        continue
                    key = (D[depth], auth, 0, "C" * depth, False)
                    for x in alpha:
                        yield (key, spec, (x,))

    def big():
        for depth, shape, decl in ((1, (70,), (75,)), (2, (12, 9), (12, 14)),
                                   (2, (40, 2), (43, 2)),
                                   (3, (5, 4, 6), (5, 5, 6))):
            alpha = [x for x in xform.alphabet(depth, B[depth], IDS[:depth])
                     if x[0] not in ("copy", "fromFiber", "setRoot", "yaml",
                                     "uncompress", "nonEmpty")]
            lin = M.linval(shape, 10)
            for spec in M.wide(70, lin)[::5] if depth == 1 else \
                    M.lattice(shape, lin)[::9 if q else 4]:
                for auth in (True, False):
                    for fmts in ("C" * depth, "U" + "C" * (depth - 1)):
                        for x in alpha:
                            yield ((decl, auth, 0, fmts, False), spec, (x,))

    def attrs():
        for depth in (1, 2, 3):
            alpha = [x for x in xform.alphabet(depth, B[depth], IDS[:depth])
                     if x[0] not in ("copy", "fromFiber", "setRoot", "yaml",
                                     "uncompress", "nonEmpty")]
            for default in (0, 3, -1.5):
                for spec in spread(pool(B[depth], default), 6 if q else 24):
                    for auth in (True, False):
                        if not auth and not M.stored(spec, depth):
                            continue
                        for fmts in map("".join, itertools.product(
                                "CU", repeat=depth)):
                            for mut in (False, True):
                                for x in alpha:
                                    yield ((D[depth], auth, default, fmts,
                                            mut), spec, (x,))

    def two():
        for depth in (1, 2) if q else (1, 2, 3):
            alpha = [x for x in xform.alphabet(depth, B[depth], IDS[:depth])
                     if x[0] not in ("copy", "fromFiber", "setRoot", "yaml",
                                     "uncompress", "nonEmpty", "deepcopy")]
            second = [("deepcopy",), ("updatePayloads", 0)] + \
                [("swizzle*", i) for i in (1, 2)] + \
                [("swap", d) for d in (0, 1)] + \
                [("flatten", d, 1, st) for d in (0, 1)
                 for st in ("tuple", "pair", "linear")] + \
                [("flatten", 0, 2, "tuple"), ("flatunflat", 0, 1, "tuple"),
                 ("flatunflat", 1, 1, "tuple")] + \
                [("merge", d, 1, st) for d in (0, 1)
                 for st in ("absolute", "relative")] + \
                [("updateCoords", d) for d in (0, 1)] + \
                [(k, d, 2, r) for k in ("uniform", "equal") for d in (0, 1)
                 for r in (False, True)] + [("nonuniform", 0, (0, 1), False)]
            for default in (0, 3):
                specs = [s for s in pool(B[depth], default,
                                         explicit=depth == 1)
                         if M.stored(s, depth)]
                if depth == 3:
                    specs = spread(specs, 60)
                elif q and depth == 2:
                    specs = spread(specs, 10)
                for spec in specs:
                    for auth in (True, False):
                        for fmts in ("C" * depth, "U" + "C" * (depth - 1)):
                            for x in alpha:
                                for y in second:
                                    yield ((D[depth], auth, default, fmts,
                                            True), spec, (x, y))

    HOW = ["fromFiber-none", "fromFiber-fibershape", "fromFiber-noids",
           "setRoot", "setRoot-owned", "uncompressed", "reference",
           "reference-noshape", "yaml", "unowned", "unowned-shaped"]

    def ctor():
        for shape in [(3,), (2, 2), (2, 1, 2)] + \
                ([] if q else [(3, 2), (2, 3), (2, 2, 2)]):
            depth = len(shape)
            for default in (0, 3):
                for spec in pool(shape, default, explicit=depth < 3):
                    for how in HOW:
                        yield (tuple(s + i for i, s in enumerate(shape)),
                               spec, default, how)

    def join():
        specs = [s for s in M.specs((4,), lambda pt: 10 + pt[0], 0,
                                    explicit=False)]
        for spec in specs:
            for how in JOIN:
                for default in (0, 3):
                    for fmt in "CU":
                        for fd in (0, 3, 7):
                            for ff in "CU":
                                for fs in (None, 4, 5):
                                    yield (spec, how, default, fmt, fd, ff,
                                           fs)

    ACT = [None, (0, 5), (1, 4), (2, 3)]

    def lazy():
        specs = [s for s in M.specs((3,), lambda pt: 10 + pt[0], 0,
                                    explicit=False)]
        for op in list(BIN) + ["<<"]:
            for sa, sb in itertools.product(specs, repeat=2):
                for owna, ownb in itertools.product((False, True), repeat=2):
                    for acta in ACT:
                        for actb in (None, (1, 4)):
                            for fmt in "CU":
                                yield (op, sa, sb, owna, ownb, acta, actb,
                                       fmt)

    def chain():
        specs = [(), ((1, 4),), ((0, 3), (2, 5))]
        for o1 in ("&", "|", "-", "^", "prune", "project"):
            for o2 in ("&", "|", "-", "^", "prune", "project", "<<", "right"):
                for s in itertools.product(specs, repeat=3):
                    for acts in itertools.product((None, (0, 3), (1, 5)),
                                                  repeat=3):
                        yield (o1, o2) + s + (acts,)

    def proj():
        specs = [s for s in M.specs((4,), lambda pt: 10 + pt[0], 0)
                 ] if not q else \
            [s for s in M.specs((3,), lambda pt: 10 + pt[0], 0)]
        for spec in specs:
            for own in (False, True):
                for act in ACT:
                    for sc, offs in ((1, (0, 1, 7)), (-1, (4, 9)), (2, (0, 1))):
                        for off in offs:
                            for interval in (None, (0, 3), (1, 9), (2, 2)):
                                for rid in (None, "Z"):
                                    yield (spec, own, act, sc, off, interval,
                                           rid)

    def co():
        specs = [s for s in M.specs((3,), lambda pt: 10 + pt[0], 0,
                                    explicit=False)]
        for how in CO:
            for sa, sb in itertools.product(specs, repeat=2):
                for acta in ACT:
                    for actb in (None, (1, 4)):
                        yield (how, sa, sb, acta, actb)

    return [
        Family("transforms", one, chk_transform, "every tree (3,), (2,2), "
               "(2,1,2) x authoritative or estimated shape x every transform"),
        Family("large", big, chk_transform, "70, 12x9, 40x2 and 5x4x6 "
               "coordinates x every transform"),
        Family("attributes", attrs, chk_transform, "6 trees per depth "
               "(thorough 24) x 3 defaults x shape source x every format "
               "assignment x mutability x every transform"),
        Family("pairs", two, chk_transform, "trees of depth 1-2 (thorough 3) "
               "x every transform x 29 second transforms"),
        Family("constructors", ctor, chk_ctor, "every tree (3,), (2,2), "
               "(2,1,2) x 2 defaults x 11 ways to build it"),
        Family("joining", join, chk_join, "16 fibers x 7 paths into a tensor x "
               "default, format, shape of fiber and rank"),
        Family("lazy", lazy, chk_lazy, "12 lazy operators x all pairs of "
               "fibers over 3 coordinates x ownership x active ranges x "
               "formats"),
        Family("lazy-chains", chain, chk_chain, "6 x 8 pairs of operators x 27 "
               "operand triples x 27 active range triples"),
        Family("projections", proj, chk_project, "all fibers over 3 "
               "coordinates x 7 maps x 4 active ranges x 4 intervals"),
        Family("coiteration", co, chk_coiter, "3 dense co-iterations (value "
               "and reference) x all pairs x active ranges"),
    ]
