"""The reference model: fibertrees as boring nested tuples and dictionaries.

A *spec* of a depth-d tree is a tuple of (coord, sub) pairs sorted by coord,
where sub is a depth-(d-1) spec, or a plain scalar when d == 1.  Explicit
default-valued leaves and empty sub-fibers are representable (and different
from absence); ``content`` forgets them.
"""

import itertools

from fibertree import Fiber, Payload, Tensor

from .core import Violation


# ---------------------------------------------------------------- enumeration

def specs(shape, val, default=0, absent=True, explicit=True, empties=True):
    """All specs over the given shape.

    Each leaf coordinate is absent, an explicit default, or val(point); each
    interior coordinate is absent or any sub-spec (the empty one included).
    Under a default that is not zero some of the values are zero.
    """
    if default != 0:
        base = val

        def val(pt):
            return 0 if sum(pt) % 3 == 0 else base(pt)
    return _specs(shape, val, default, absent, explicit, empties, ())


def _specs(shape, val, default, absent, explicit, empties, point):
    S = shape[0]
    opts = []
    for c in range(S):
        pt = point + (c,)
        o = []
        if absent:
            o.append(None)
        if len(shape) == 1:
            if explicit:
                o.append((c, default))
            o.append((c, val(pt)))
        else:
            for s in _specs(shape[1:], val, default, absent, explicit,
                            empties, pt):
                if s == () and not empties:
                    continue
                o.append((c, s))
        opts.append(o)
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*opts)]


def linval(shape, base=1, plain=False):
    """A distinct nonzero value for each point of the shape; negative and
    fractional values among them unless plain"""
    def val(pt):
        v = 0
        for c, s in zip(pt, shape):
            v = v * s + c
        k = 0 if plain else v % 4
        v += base
        return -v if k == 2 else v + 0.5 if k == 3 else v
    return val


# ---------------------------------------------------------------- model side

def content(spec, depth, default=0):
    """dict point -> value of the non-default leaves"""
    out = {}
    if depth == 1:
        for c, v in spec:
            if v != default:
                out[(c,)] = v
    else:
        for c, s in spec:
            for pt, v in content(s, depth - 1, default).items():
                out[(c,) + pt] = v
    return out


def stored(spec, depth):
    """dict point -> value of every stored leaf (explicit defaults included)"""
    out = {}
    for c, s in spec:
        if depth == 1:
            out[(c,)] = s
        else:
            for pt, v in stored(s, depth - 1).items():
                out[(c,) + pt] = v
    return out


def from_content(cont, depth):
    """The canonical spec (no explicit defaults, no empties) of a content"""
    if depth == 1:
        return tuple(sorted((pt[0], v) for pt, v in cont.items()))
    groups = {}
    for pt, v in cont.items():
        groups.setdefault(pt[0], {})[pt[1:]] = v
    return tuple((c, from_content(g, depth - 1))
                 for c, g in sorted(groups.items()))


def is_empty(sub, depth, default=0):
    """depth: depth of sub (0: a leaf value)"""
    if depth == 0:
        return sub == default
    return not content(sub, depth, default)


def present(spec, depth, default=0):
    """The non-empty (coord, sub) elements of a spec"""
    return [(c, s) for c, s in spec if not is_empty(s, depth - 1, default)]


def lookup(spec, c):
    for cc, s in spec:
        if cc == c:
            return s
    return None


def fibers_of(spec, depth):
    """specs of every fiber, per level, depth-first order"""
    levels = [[] for _ in range(depth)]

    def walk(s, lvl):
        levels[lvl].append(s)
        if lvl + 1 < depth:
            for _, sub in s:
                walk(sub, lvl + 1)
    walk(spec, 0)
    return levels


# ---------------------------------------------------------------- code side

def mk_fiber(spec, depth, default=0, shape=None, interior_default=Fiber):
    """An unowned Fiber made by the public constructor"""
    if depth == 1:
        return Fiber([c for c, _ in spec], [v for _, v in spec],
                     default=default, shape=shape[0] if shape else None)
    return Fiber([c for c, _ in spec],
                 [mk_fiber(s, depth - 1, default, shape[1:] if shape else None,
                           interior_default)
                  for _, s in spec],
                 default=interior_default,
                 shape=shape[0] if shape else None)


def mk_tensor(spec, depth, shape=None, default=0, rank_ids=None, fmts=None,
              name="", fiber_shape=True):
    f = mk_fiber(spec, depth, default, shape if fiber_shape else None)
    if rank_ids is None:
        rank_ids = ["M", "N", "K", "J"][:depth]
    t = Tensor.fromFiber(rank_ids=list(rank_ids), fiber=f,
                         shape=list(shape) if shape else None,
                         default=default, name=name)
    if fmts:
        for r, f in zip(rank_ids, fmts):
            if f != "C":
                t.setFormat(r, f)
    return t


def unbox(p):
    return p.value if isinstance(p, Payload) else p


def raw(f):
    """Spec of a live fiber read from coords/payloads only (no checks)"""
    out = []
    for c, p in zip(f.coords, f.payloads):
        if isinstance(p, Payload):
            p = p.value
        if isinstance(p, Fiber):
            out.append((c, raw(p)))
        else:
            out.append((c, p))
    return tuple(out)


def raw_t(t):
    return raw(t.getRoot())


def code_content(f, default=0):
    """Content of a live fiber (depth discovered from the tree)"""
    out = {}

    def walk(f, pt):
        for c, p in zip(f.coords, f.payloads):
            if isinstance(p, Payload):
                p = p.value
            if isinstance(p, Fiber):
                walk(p, pt + (c,))
            elif p != default:
                out[pt + (c,)] = p
    walk(f, ())
    return out


def stored_live(f):
    """dict point -> unboxed value of every stored leaf of a live fiber"""
    out = {}

    def walk(f, pt):
        for c, p in zip(f.coords, f.payloads):
            p = unbox(p)
            if isinstance(p, Fiber):
                walk(p, pt + (c,))
            else:
                out[pt + (c,)] = p
    walk(f, ())
    return out


def ill_formed(f, depth=None, ordered=True, path=()):
    """First well-formedness problem of a live tree, or None.

    depth: expected depth of f (None: anything uniform)."""
    depths = set()

    def walk(f, lvl, path, seen):
        if not isinstance(f, Fiber):
            return f"{path}: not a fiber: {f!r}"
        if id(f) in seen:
            return f"{path}: fiber object reachable twice"
        seen.add(id(f))
        if len(f.coords) != len(f.payloads):
            return (f"{path}: {len(f.coords)} coords but "
                    f"{len(f.payloads)} payloads")
        if not isinstance(f.coords, list) or not isinstance(f.payloads, list):
            return f"{path}: coords/payloads are not lists"
        if ordered:
            for a, b in zip(f.coords, f.coords[1:]):
                if not a < b:
                    return f"{path}: coordinates not increasing: {f.coords}"
        leaf = None
        for c, p in zip(f.coords, f.payloads):
            is_f = isinstance(p, Fiber)
            if not is_f:
                if not isinstance(p, Payload):
                    return f"{path + (c,)}: unboxed payload {p!r}"
                if id(p) in seen:
                    return (f"{path + (c,)}: payload object shared by two "
                            "points")
                seen.add(id(p))
                v = p.__dict__.get("value")
                if isinstance(v, Payload):
                    return f"{path + (c,)}: doubly boxed payload"
                if isinstance(v, Fiber):
                    return f"{path + (c,)}: boxed fiber"
                if isinstance(v, type):
                    return f"{path + (c,)}: payload is the class {v!r}"
            if leaf is None:
                leaf = not is_f
            elif leaf != (not is_f):
                return f"{path}: leaf and fiber payloads mixed"
            if is_f:
                if depth is not None and lvl + 1 >= depth:
                    return f"{path + (c,)}: fiber below the leaf level"
                r = walk(p, lvl + 1, path + (c,), seen)
                if r:
                    return r
            else:
                if depth is not None and lvl + 1 != depth:
                    return f"{path + (c,)}: leaf payload at an interior level"
                depths.add(lvl + 1)
        return None

    r = walk(f, 0, path, set())
    if r is None and len(depths) > 1:
        r = f"leaves at depths {sorted(depths)}"
    return r


def mirror_error(t):
    """First disagreement between rank lists and tree of tensor t, or None"""
    root = t.getRoot()
    if not isinstance(root, Fiber):
        return None
    levels = [[] for _ in t.ranks]

    def walk(f, lvl):
        if lvl >= len(levels):
            return f"tree deeper than {len(levels)} ranks"
        levels[lvl].append(f)
        for p in f.payloads:
            if isinstance(p, Payload):
                p = p.value
            if isinstance(p, Fiber):
                r = walk(p, lvl + 1)
                if r:
                    return r
        return None
    r = walk(root, 0)
    if r:
        return r
    for i, (rank, want) in enumerate(zip(t.ranks, levels)):
        got = rank.getFibers()
        gi, wi = [id(f) for f in got], [id(f) for f in want]
        if len(set(gi)) != len(gi):
            return f"rank {i} ({rank.getId()}) lists a fiber twice"
        stale = set(gi) - set(wi)
        if stale:
            return (f"rank {i} ({rank.getId()}) lists {len(stale)} stale "
                    f"fiber(s): {[raw(f) for f in got if id(f) in stale]}")
        missing = set(wi) - set(gi)
        if missing:
            return (f"rank {i} ({rank.getId()}) misses {len(missing)} "
                    f"fiber(s): {[raw(f) for f in want if id(f) in missing]}")
        for f in want:
            if f.getOwner() is not rank:
                return (f"a fiber at level {i} is owned by "
                        f"{f.getOwner() and f.getOwner().getId()}")
        nxt = t.ranks[i + 1] if i + 1 < len(t.ranks) else None
        if rank.getNextRank() is not nxt:
            return f"rank {i} is not chained to rank {i + 1}"
    if len(t.ranks[0].getFibers()) != 1 or t.ranks[0].getFibers()[0] is not root:
        return "the root is not the single fiber of the first rank"
    return None


def check_tensor(t, what, depth=None):
    """Well-formed and mirrored"""
    if isinstance(t.getRoot(), Fiber):
        r = ill_formed(t.getRoot(), depth if depth is not None
                       else len(t.ranks))
        if r:
            raise Violation(f"{what}: ill-formed tree: {r}")
        r = mirror_error(t)
        if r:
            raise Violation(f"{what}: rank bookkeeping: {r}")


def check_fiber(f, what, depth=None, ordered=True):
    r = ill_formed(f, depth, ordered)
    if r:
        raise Violation(f"{what}: ill-formed tree: {r}")


# ---------------------------------------------------------------- snapshots

def _freeze(x):
    if isinstance(x, list):
        return ("L",) + tuple(_freeze(e) for e in x)
    if isinstance(x, tuple):
        return tuple(_freeze(e) for e in x)
    if isinstance(x, Payload):
        return ("P", _freeze(x.value))
    if isinstance(x, Fiber):
        return ("F", raw(x))
    if isinstance(x, type):
        return x.__name__
    return x


def snap_fiber(f, active=True, ids=True):
    """Everything observable of a live fiber (identity included)"""
    out = []

    def walk(f):
        out.append((
            id(f) if ids else 0,
            tuple(f.coords),
            tuple((id(p) if ids else 0,
                   None if isinstance(p, Fiber) else _freeze(p))
                  for p in f.payloads),
            id(f.getOwner()) if ids and f.getOwner() is not None else 0,
            _freeze(f.getRankAttrs().getShape()),
            f.getRankAttrs().getId() if not isinstance(
                f.getRankAttrs().getId(), list)
            else tuple(f.getRankAttrs().getId()),
            f.getRankAttrs().getFormat(),
            _freeze(f.getDefault()),
            _freeze(f.getActive()) if active else None,
            f.isOrdered(), f.isUnique(), f.isLazy()))
        for p in f.payloads:
            if isinstance(p, Fiber):
                walk(p)
    walk(f)
    return tuple(out)


def snap_tensor(t, active=True, ids=True):
    root = t.getRoot()
    if not isinstance(root, Fiber):
        return ("rank0", id(root) if ids else 0, _freeze(root), t.getName(),
                t.getColor(), t.isMutable())
    return (snap_fiber(root, active, ids),
            tuple((id(r) if ids else 0,
                   tuple(id(f) if ids else 0 for f in r.getFibers()),
                   _freeze(r.getId()), _freeze(r.getAttrs().getShape()),
                   r.getAttrs().getEstimatedShape(), r.getFormat(),
                   _freeze(r.getDefault())) for r in t.ranks),
            t.getName(), t.getColor(), t.isMutable())


def snap(x, **kw):
    return snap_tensor(x, **kw) if isinstance(x, Tensor) else \
        snap_fiber(x, **kw)


def reachable(x):
    """ids of every mutable object of a fiber/tensor: fibers, boxes, lists,
    ranks and rank attributes (objects kept alive by x)"""
    ids = {}

    def walk(f):
        ids[id(f)] = "fiber"
        ids[id(f.coords)] = "coords list"
        ids[id(f.payloads)] = "payloads list"
        ids[id(f.getRankAttrs())] = "rank attributes"
        if f.getOwner() is not None:
            ids[id(f.getOwner())] = "rank"
        for p in f.payloads:
            if isinstance(p, Fiber):
                walk(p)
            elif isinstance(p, Payload):
                ids[id(p)] = "payload box"
    if isinstance(x, Tensor):
        ids[id(x)] = "tensor"
        for r in x.ranks:
            ids[id(r)] = "rank"
            ids[id(r.getAttrs())] = "rank attributes"
            ids[id(r.getFibers())] = "rank fiber list"
        r = x.getRoot()
        if isinstance(r, Fiber):
            walk(r)
        else:
            ids[id(r)] = "payload box"
    else:
        walk(x)
    return ids


def shared(a, b):
    """Kinds of mutable objects reachable from both"""
    ia, ib = reachable(a), reachable(b)
    return sorted({ia[k] for k in ia if k in ib})


def wide(N, val, default=0):
    """Long fibers over N coordinates: arithmetic progressions, whole or with
    every third element an explicit default; a cluster and a far element"""
    out = []
    runs = [tuple(range(a, N, k)) for a in (0, 1, N // 2) for k in (1, 2, 3, 5)]
    runs += [tuple(range(min(4, N))) + (N - 1,), (N - 1,)]
    for cs in runs:
        for hole in (0, 3):
            s = tuple((c, default if hole and i % hole == hole - 1
                       else val((c,))) for i, c in enumerate(dict.fromkeys(cs)))
            if s not in out:
                out.append(s)
    return out


def lattice(shape, val):
    """Trees of depth 2 or more whose points satisfy a linear congruence"""
    out = []
    pts = list(itertools.product(*map(range, shape)))
    for m in (2, 3, 5):
        for co in itertools.product((1, 2), repeat=len(shape)):
            for r in (0, 1):
                keep = [p for p in pts
                        if sum(a * b for a, b in zip(co, p)) % m == r]
                t = nest([(p, val(p)) for p in keep])
                if t not in out:
                    out.append(t)
    return out


def nest(pairs):
    """Ascending (point, value) pairs as a spec"""
    if pairs and len(pairs[0][0]) == 1:
        return tuple((p[0], v) for p, v in pairs)
    out = []
    for c, g in itertools.groupby(pairs, key=lambda e: e[0][0]):
        out.append((c, nest([(p[1:], v) for p, v in g])))
    return tuple(out)
