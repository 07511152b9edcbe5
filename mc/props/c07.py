"""C07: every traversal mode enumerates exactly the slice of content it
names."""

import itertools

from fibertree import CoordPayload, Fiber, Payload, Tensor

from ..core import Family, Violation, eq, require
from .. import model as M

RULE = ("every fiber over the bounded shape (absent / explicit default / value "
        "per coordinate; empty sub-fibers) x formats x active ranges x "
        "traversal modes x ranges / steps / start positions / affine "
        "transforms / intervals; element identity and the raw tree are "
        "compared at every yield")
ASSUMPTIONS = [
    "a start position is legal when every element stored before it is outside "
    "the named range or empty; for plain occupancy iteration the position "
    "names the suffix of the fiber",
    "affine transforms c -> m*c+b with m in {1,2,3,-1,-2}; reversing a lazy "
    "fiber is rejected by the library and is outside the domain"]


class Obj:
    """A live fiber with its model"""

    def __init__(self, key, spec):
        (self.depth, self.S, self.kind, self.default, self.fmt, self.act,
         self.auth) = key
        self.key, self.spec = key, spec
        shape = [self.S] + [2] * (self.depth - 1)
        if self.kind == "tensor":
            self.x = M.mk_tensor(spec, self.depth,
                                 shape if self.auth else None, self.default,
                                 fmts=[self.fmt] + ["C"] * (self.depth - 1),
                                 fiber_shape=self.auth)
            self.f = self.x.getRoot()
        else:
            self.x = self.f = M.mk_fiber(spec, self.depth, self.default,
                                         shape if self.auth else None)
            if self.fmt != "C":
                self.f.getRankAttrs().setFormat(self.fmt)
        if self.act is not None:
            self.f.setActive(self.act)
        # a declared shape, or the largest stored coordinate plus one
        self.shape = self.S if self.auth else \
            (spec[-1][0] + 1 if spec else 0)
        self.range = self.act if self.act is not None else (0, self.shape)
        self.stored = dict(zip(self.f.coords, self.f.payloads))
        self.present = [c for c, _ in M.present(spec, self.depth,
                                                self.default)]
        self.what = f"{self.kind} {spec!r} fmt={self.fmt} act={self.act}"

    def snap(self):
        return M.snap(self.x)

    def is_default(self, p):
        if self.depth > 1:
            return isinstance(p, Fiber) and len(p.coords) == 0 and \
                not any(p is q for q in self.stored.values())
        return isinstance(p, Payload) and not isinstance(p.value, Payload) \
            and p.value == self.default and type(p.value) is type(self.default)

    def elem(self, c, p, what):
        if c in self.stored:
            require(p is self.stored[c], "{}: payload at {} is {!r}, not the "
                    "stored one", what, c, p)
        else:
            require(self.is_default(p), "{}: payload at absent coordinate {} "
                    "is {!r}", what, c, p)

    def elems(self, got, want, what):
        """got: delivered (c, p); want: coordinates"""
        cs = []
        for e in got:
            c, p = e
            cs.append(c)
            self.elem(c, p, what)
        eq(cs, list(want), what)

    def default_iter(self):
        return list(range(*self.range)) if self.fmt == "U" else self.present

    def in_range(self, lo, hi):
        return [c for c in self.present if (lo is None or c >= lo)
                and (hi is None or c < hi)]


def ranges(S):
    for lo in [None] + list(range(0, S + 2)):
        for hi in [None] + list(range(0, S + 2)):
            yield lo, hi


def chk_modes(case, rec):
    key, spec = case
    o = Obj(key, spec)
    f, what = o.f, o.what
    before = o.snap()
    S = o.S

    def go(mk, want, name):
        w = f"{what}: {name}"
        o.elems(mk(), want, w)
        # again, and two traversals of the same fiber in lockstep
        a, b = iter(mk()), iter(mk())
        rec.step(2)
        for c in want:
            o.elem(*next(a), w + " (interleaved)")
            c2, _ = next(b)
            eq(c2, c, w + " (interleaved)")
        require(next(a, None) is None and next(b, None) is None,
                "{}: extra elements", w)
        rec.outcome((name[:6], tuple(want)))

    go(lambda: f, o.default_iter(), "default iteration")
    go(lambda: f.iterOccupancy(), o.present, "iterOccupancy")
    go(lambda: f.iterActive(), o.in_range(*o.range), "iterActive")
    go(lambda: f.iterShape(), range(o.shape), "iterShape")
    go(lambda: f.iterActiveShape(), range(*o.range), "iterActiveShape")
    go(lambda: f.iterUncompressed(), range(o.shape), "iterUncompressed")
    eq(list(f.iterShapeCoords()), list(range(o.shape)), f"{what}: iterShapeCoords")
    for lo, hi in ranges(S):
        go(lambda: f.iterRange(lo, hi), o.in_range(lo, hi),
           f"iterRange({lo}, {hi})")
        st = [c for c, _ in spec if (lo is None or c >= lo)
              and (hi is None or c < hi)]
        go(lambda: f.iterRange(lo, hi, skip_empty=False), st,
           f"iterRange({lo}, {hi}, skip_empty=False)")
        if lo is None or hi is None:
            continue
        for step in (1, 2, 3):
            go(lambda: f.iterRangeShape(lo, hi, step), range(lo, hi, step),
               f"iterRangeShape({lo}, {hi}, {step})")
    # the argument-less step
    go(lambda: f.iterRangeShape(0, S), range(S), f"iterRangeShape(0, {S})")
    require(o.snap() == before, "{}: a traversal changed the tree", what)
    rec.state(case)
    rec.ok()


def chk_starts(case, rec):
    """Saved-position shortcuts: direct, and chained from the position the
    previous traversal saved"""
    key, spec = case
    o = Obj(key, spec)
    f, what = o.f, o.what
    n = len(spec)
    before = o.snap()
    for sp in range(n):
        for box in (False, True):
            spv = Payload(sp) if box else sp
            suffix = [c for c in o.present if c >= spec[sp][0]]
            w = f"{what}: iterOccupancy(start_pos={spv!r})"
            for c, p in f.iterOccupancy(start_pos=spv):
                o.elem(c, p, w)
                eq(f.getSavedPos(), f.coords.index(c), w + " saved position")
            o.elems(f.iterOccupancy(start_pos=spv), suffix, w)
            if o.fmt == "C":
                o.elems(f.__iter__(start_pos=spv), suffix, what + ": __iter__")
            rec.step(3)
            for lo, hi in list(ranges(o.S)) + ["active"]  \
                    if False else list(ranges(o.S)):
                want = o.in_range(lo, hi)
                if any(c in want for c, _ in spec[:sp]):
                    continue
                w = f"{what}: iterRange({lo}, {hi}, start_pos={spv!r})"
                cnt = 0
                for c, p in f.iterRange(lo, hi, start_pos=spv):
                    cnt += 1
                    o.elem(c, p, w)
                    eq(c, want[cnt - 1], w)
                    eq(f.getSavedPos(), f.coords.index(c),
                       w + " saved position")
                eq(cnt, len(want), w + " number of elements")
                rec.step()
        want = o.in_range(*o.range)
        if not any(c in want for c, _ in spec[:sp]):
            o.elems(f.iterActive(start_pos=sp), want,
                    f"{what}: iterActive(start_pos={sp})")
            rec.step()
    # ascending disjoint windows, each started from the saved position of the
    # previous one
    for cuts in itertools.combinations(range(o.S + 2), 3):
        if not n:
            break
        f.setSavedPos(0)
        for lo, hi in zip(cuts, cuts[1:]):
            sp = f.getSavedPos()
            w = f"{what}: windows {cuts} [{lo},{hi}) start_pos={sp}"
            o.elems(f.iterRange(lo, hi, start_pos=sp), o.in_range(lo, hi), w)
            rec.step()
    require(o.snap() == before, "{}: a traversal changed the tree", what)
    rec.state(("s",) + case)
    rec.ok()


# ---------------------------------------------------------------- references

def chk_refs(case, rec):
    """Reference variants insert exactly the visited absent coordinates"""
    key, spec = case
    S = key[1]
    shape = S if key[6] else (spec[-1][0] + 1 if spec else 0)
    act = key[5] if key[5] is not None else (0, shape)
    modes = [("iterShapeRef", (), range(shape)),
             ("iterActiveShapeRef", (), range(*act))]
    for lo in range(S + 1):
        for hi in range(lo, S + 2):
            for step in (1, 2, 3):
                modes.append(("iterRangeShapeRef", (lo, hi, step),
                              range(lo, hi, step)))
    for name, args, want in modes:
        for stop in [None] + list(range(len(want))):
            for write in (None, 7):
                if stop is not None and write is not None:
                    continue
                refs_one(key, spec, name, args, list(want), stop, write, rec)
    rec.state(("r",) + case)


def refs_one(key, spec, name, args, want, stop, write, rec):
    o = Obj(key, spec)
    w = f"{o.what}: {name}{args} stop={stop} write={write}"
    m = dict(spec)
    got = []
    for c, p in getattr(o.f, name)(*args):
        got.append(c)
        if c not in m:
            m[c] = o.default if o.depth == 1 else ()
        # the raw tree is checked at every yield
        eq(M.raw(o.f), tuple(sorted(m.items())), f"{w} at {c}")
        require(o.f.payloads[o.f.coords.index(c)] is p,
                "{}: the reference at {} is not in the tree", w, c)
        if c in o.stored:
            require(p is o.stored[c], "{}: stored payload at {} replaced", w,
                    c)
        if write is not None and o.depth == 1:
            p <<= write
            m[c] = write
        elif write is not None:
            r = p.getPayloadRef(*[1] * (o.depth - 1))
            r <<= write
            s = dict(m[c])
            s[1] = write
            m[c] = tuple(sorted(s.items()))
        if stop is not None and c == want[stop]:
            break
    eq(got, want if stop is None else want[:stop + 1], w)
    eq(M.raw(o.f), tuple(sorted(m.items())), w)
    if o.kind == "tensor":
        M.check_tensor(o.x, w)
    else:
        M.check_fiber(o.f, w)
    rec.step()
    rec.ok()


# ---------------------------------------------------------------- co-iteration

def chk_co(case, rec):
    keys, specs = case
    n = len(specs)

    def fresh():
        os = [Obj(k, s) for k, s in zip(keys, specs)]
        return os, [o.f for o in os]
    os, fs = fresh()
    what = f"coiter {[o.what for o in os]}"
    S = max(o.S for o in os)
    modes = [("coiterShape", (), range(os[0].shape)),
             ("coiterActiveShape", (), range(*os[0].range))]
    for lo, hi in ((0, S), (1, S + 1), (1, 1), (2, 1), (S - 1, S)):
        for step in (1, 2):
            modes.append(("coiterRangeShape", (lo, hi, step),
                          range(lo, hi, step)))
    before = [o.snap() for o in os]
    for name, args, want in modes:
        w = f"{what}: {name}{args}"
        lz = getattr(Fiber, name)(fs, *args)
        for rep in range(2):
            cs = []
            for c, ps in lz:
                ps = M.unbox(ps)
                cs.append(c)
                require(isinstance(ps, tuple) and len(ps) == n,
                        "{}: payload {!r} at {}", w, ps, c)
                for o, p in zip(os, ps):
                    o.elem(c, p, w)
            eq(cs, list(want), f"{w} pass {rep}")
        rec.step(2)
    require([o.snap() for o in os] == before, "{}: a traversal changed an "
            "operand", what)
    for name, args, want in modes:
        os2, fs2 = fresh()
        w = f"{what}: {name}Ref{args}"
        ms = [dict(s) for s in specs]
        cs = []
        for rep in range(2):
            for c, ps in getattr(Fiber, name + "Ref")(fs2, *args):
                ps = M.unbox(ps)
                cs.append(c)
                for o, m, p in zip(os2, ms, ps):
                    if c not in m:
                        m[c] = o.default if o.depth == 1 else ()
                    eq(M.raw(o.f), tuple(sorted(m.items())), f"{w} at {c}")
                    require(o.f.payloads[o.f.coords.index(c)] is p,
                            "{}: the reference at {} is not in the tree", w,
                            c)
        eq(cs, list(want) * 2, w)
        for o in os2:
            if o.kind == "tensor":
                M.check_tensor(o.x, w)
        rec.step(2)
    rec.state(case)
    rec.ok()


# ---------------------------------------------------------------- lazy fibers

def lazy_elems(f):
    """What a traversal delivers, as (coordinate, content)"""
    out = []
    for c, p in f:
        out.append((c, freeze(p)))
    return out


def freeze(p):
    if isinstance(p, Payload):
        p = p.value
    if isinstance(p, tuple):
        return ("T",) + tuple(freeze(x) for x in p)
    if isinstance(p, Fiber):
        if p.isLazy():
            return ("F", tuple(lazy_elems(p)))
        return ("F", tuple((c, freeze(x)) for c, x in zip(p.coords,
                                                          p.payloads)
                           if not empty(x, p)))
    return p


def empty(x, parent):
    if isinstance(x, Payload):
        return x.value == M.unbox(parent.getDefault())
    return x.isEmpty()


LAZY = ["&", "|", "^", "-", "int3", "union3", "lf", "prune0", "prune1",
        "pruneall", "project+1", "project*2", "project-", "projectint",
        "pp", "pj", "active", "pi"]


def make_lazy(name, x, y, S):
    f, g = x.f, y.f
    if name == "&":
        return f & g
    if name == "|":
        return f | g
    if name == "^":
        return f ^ g
    if name == "-":
        return f - g
    if name == "int3":
        return Fiber.intersection(f, g, f)
    if name == "union3":
        return Fiber.union(f, g, f)
    if name == "lf":
        return Fiber.intersection(f, g, style="leader-follower")
    if name == "prune0":
        return f.prune(lambda i, c, p: c != 0)
    if name == "prune1":
        return f.prune(lambda i, c, p: c % 2 == 1)
    if name == "pruneall":
        return f.prune(lambda i, c, p: False)
    if name == "project+1":
        return f.project(lambda c: c + 1)
    if name == "project*2":
        return f.project(lambda c: 2 * c)
    if name == "project-":
        return f.project(lambda c: S - 1 - c)
    if name == "projectint":
        return f.project(lambda c: c + 1, interval=(1, S))
    if name == "pp":
        return f.prune(lambda i, c, p: c > 0).prune(lambda i, c, p: c < S - 1)
    if name == "pj":
        return f.prune(lambda i, c, p: c > 0).project(lambda c: c - 1)
    if name == "active":
        return (f & g).prune(lambda i, c, p: c > 0)
    if name == "pi":
        return f.prune(lambda i, c, p: i % 2 == 0)
    raise KeyError(name)


def lazy_model(name, x, y, S):
    """Expected coordinates"""
    A, B = x.default_iter(), y.default_iter()
    sa, sb = set(A), set(B)
    if name in ("&", "int3"):
        return sorted(sa & sb)
    if name == "lf":
        return A
    if name in ("|", "union3"):
        return sorted(sa | sb)
    if name == "^":
        return sorted(sa ^ sb)
    if name == "-":
        return sorted(sa - sb)
    if name == "prune0":
        return [c for c in A if c != 0]
    if name == "prune1":
        return [c for c in A if c % 2 == 1]
    if name == "pruneall":
        return []
    if name == "project+1":
        return [c + 1 for c in A]
    if name == "project*2":
        return [2 * c for c in A]
    if name == "project-":
        return sorted(S - 1 - c for c in A)
    if name == "projectint":
        return [c + 1 for c in A if 1 <= c + 1 < S]
    if name == "pp":
        return [c for c in A if 0 < c < S - 1]
    if name == "pj":
        return [c - 1 for c in A if c > 0]
    if name == "active":
        return [c for c in sorted(sa & sb) if c > 0]
    if name == "pi":
        return A[::2]


def chk_lazy(case, rec):
    (kx, ky), (sx, sy), name = case
    x, y = Obj(kx, sx), Obj(ky, sy)
    S = x.S
    what = f"{name} of {x.what} and {y.what}"
    b1, b2 = x.snap(), y.snap()
    z = make_lazy(name, x, y, S)
    require(z.isLazy(), "{}: not lazy", what)
    first = lazy_elems(z)
    want = lazy_model(name, x, y, S)
    eq([c for c, _ in first], want, f"{what}: coordinates")
    for rep in range(2):
        eq(lazy_elems(z), first, f"{what}: repeated iteration")
    # interleaved traversals
    a, b = iter(z), iter(z)
    for c, p in first:
        for it in (a, b):
            e = next(it, None)
            require(e is not None, "{}: interleaved traversal ends early",
                    what)
            c2, p2 = e
            eq((c2, freeze(p2)), (c, p), f"{what}: interleaved")
    require(next(a, None) is None and next(b, None) is None,
            "{}: interleaved traversal delivers more", what)
    # an abandoned traversal leaves nothing behind
    it = iter(z)
    next(it, None)
    eq(lazy_elems(z), first, f"{what}: after an abandoned traversal")
    # ranges of a lazy fiber
    if kx[4] == "C" and ky[4] == "C":
        eq([(c, freeze(p)) for c, p in z.iterOccupancy()], first,
           f"{what}: iterOccupancy")
        for lo, hi in ranges(S):
            eq([(c, freeze(p)) for c, p in z.iterRange(lo, hi)],
               [(c, p) for c, p in first if (lo is None or c >= lo)
                and (hi is None or c < hi)], f"{what}: iterRange({lo},{hi})")
            rec.step()
    rec.step(5)
    # materialisation
    e = Fiber.fromLazy(z)
    require(not e.isLazy(), "{}: fromLazy is lazy", what)
    r = M.ill_formed(e)
    require(r is None or "payload" in r, "{}: fromLazy: {}", what, r)
    # elements equal to the default of the lazy fiber are not kept
    dflt = freeze_default(z)
    eq([(c, freeze(p)) for c, p in zip(e.coords, e.payloads)],
       [(c, p) for c, p in first if p != dflt and p != ("F", ())],
       f"{what}: materialised elements")
    # ... the eager fiber delivers what the lazy one does
    eq(lazy_elems(e), [(c, p) for c, p in first if p != dflt
                       and p != ("F", ())],
       f"{what}: iteration of the materialised fiber")
    require(e == z and z == e, "{}: fromLazy(z) != z", what)
    require((x.snap(), y.snap()) == (b1, b2), "{}: an operand was modified",
            what)
    rec.step(3)
    rec.state(case)
    rec.outcome((name, tuple(first)))
    rec.ok()


def freeze_default(z):
    d = z.getDefault()
    d = M.unbox(d)
    if isinstance(d, type) or callable(d):
        return ("F", ())
    return freeze(d)


def chk_unlazy_iter(case, rec):
    """fromIterator: a fiber over an arbitrary re-instantiable iterator"""
    key, spec = case
    o = Obj(key, spec)
    els = [CoordPayload(c, p) for c, p in zip(o.f.coords, o.f.payloads)]
    n = [0]

    class it:
        def __iter__(self):
            n[0] += 1
            return iter(els)
    z = Fiber.fromIterator(it, default=o.f.getDefault(),
                           active_range=(0, o.S))
    for rep in range(3):
        o.elems(z, o.present, f"{o.what}: fromIterator pass {rep}")
    for lo, hi in ranges(o.S):
        o.elems(z.iterRange(lo, hi), o.in_range(lo, hi),
                f"{o.what}: lazy iterRange({lo},{hi})")
        rec.step()
    m = Fiber.fromLazy(z)
    eq(M.content(M.raw(m), o.depth, o.default),
       M.content(spec, o.depth, o.default), f"{o.what}: fromLazy")
    rec.state(("u",) + case)
    rec.ok()


# ---------------------------------------------------------------- projection

def intervals(vals):
    lo, hi = (min(vals), max(vals)) if vals else (0, 0)
    pts = list(range(lo - 1, hi + 3))
    yield None
    for a, b in itertools.combinations_with_replacement(pts, 2):
        yield (a, b)


def chk_project(case, rec):
    key, spec = case
    o = Obj(key, spec)
    f = o.f
    before = o.snap()
    base = o.default_iter()
    inv = {}
    for m, b in ((1, 0), (1, 1), (1, -1), (1, -3), (2, 0), (2, 1), (3, -2),
                 (-1, 0), (-1, o.S - 1), (-1, 5), (-2, 1)):
        def tr(c):
            return m * c + b
        img = sorted((tr(c), c) for c in base)
        for iv in intervals([a for a, _ in img]):
            want = [(a, c) for a, c in img
                    if iv is None or iv[0] <= a < iv[1]]
            w = f"{o.what}: project(c -> {m}*c{b:+}, interval={iv})"
            z = f.project(tr, interval=iv)
            for rep in range(2):
                got = list(z)
                eq([c for c, _ in got], [a for a, _ in want],
                   f"{w} pass {rep}")
                for (a, c), (_, p) in zip(want, got):
                    o.elem(c, p, w)
            rec.step(2)
            # active range of the projection
            if iv is not None:
                eq(tuple(z.getActive()), iv, w + ": active range")
            elif o.range[0] < o.range[1]:
                e = sorted((tr(o.range[0]), tr(o.range[1] - 1)))
                eq(tuple(z.getActive()), (e[0], e[1] + 1),
                   w + ": active range")
            # saved-position shortcuts (a reversed fiber accepts none)
            if m > 0 and o.fmt == "C":
                for sp in range(len(spec)):
                    pre = [tr(c) for c, _ in spec[:sp]]
                    if iv is None and any(tr(c) in [a for a, _ in want]
                                          for c, _ in spec[:sp]):
                        continue
                    if iv is not None and any(a >= iv[0] for a in pre):
                        continue
                    for box in (False, True):
                        zz = f.project(tr, interval=iv, start_pos=Payload(sp)
                                       if box else sp)
                        got = list(zz)
                        eq([c for c, _ in got], [a for a, _ in want],
                           f"{w} start_pos={sp}")
                        for (a, c), (_, p) in zip(want, got):
                            o.elem(c, p, w)
                        rec.step()
    require(o.snap() == before, "{}: project changed the fiber", o.what)
    # identity transform by default
    o.elems(f.project(), base, f"{o.what}: project()")
    rec.state(("p",) + case)
    rec.ok()


def chk_project2(case, rec):
    """Projections of projections, projections of prunes, reversed twice"""
    key, spec = case
    o = Obj(key, spec)
    base = o.default_iter()
    ts = [(1, 0), (1, 2), (1, -2), (2, 0), (-1, 3)]
    for (m1, b1), (m2, b2) in itertools.product(ts, repeat=2):
        if m2 < 0:
            continue            # reversing a lazy fiber is rejected
        for i1 in (None, (0, 3), (1, 4)):
            for i2 in (None, (0, 4), (2, 5)):
                z = o.f.project(lambda c: m1 * c + b1, interval=i1) \
                    .project(lambda c: m2 * c + b2, interval=i2)
                img = sorted((m1 * c + b1, c) for c in base)
                img = [(a, c) for a, c in img
                       if i1 is None or i1[0] <= a < i1[1]]
                img = [(m2 * a + b2, c) for a, c in img]
                img = [(a, c) for a, c in img
                       if i2 is None or i2[0] <= a < i2[1]]
                got = list(z)
                w = (f"{o.what}: project({m1}*c{b1:+}, {i1})."
                     f"project({m2}*c{b2:+}, {i2})")
                eq([c for c, _ in got], [a for a, _ in img], w)
                for (a, c), (_, p) in zip(img, got):
                    o.elem(c, p, w)
                rec.step()
        for keep in range(1 << o.S):
            z = o.f.prune(lambda i, c, p: bool(keep >> c & 1)) \
                .project(lambda c: m2 * c + b2)
            eq([c for c, _ in z], [m2 * c + b2 for c in base
                                   if keep >> c & 1],
               f"{o.what}: prune({keep:b}).project({m2}*c{b2:+})")
            rec.step()
    rec.state(("pp",) + case)
    rec.ok()


def chk_prune(case, rec):
    key, spec = case
    o = Obj(key, spec)
    before = o.snap()
    base = o.default_iter()
    for keep in range(1 << o.S):
        seen = []

        def tr(i, c, p):
            seen.append((c, p))
            places.append(i)
            return bool(keep >> c & 1)
        w = f"{o.what}: prune({keep:b})"
        z = o.f.prune(tr)
        for rep in range(2):
            seen.clear()
            places = []
            o.elems(z, [c for c in base if keep >> c & 1], w)
            o.elems(seen, base, w + ": elements offered to the filter")
            if rep:
                eq(places, first, w + ": numbers offered to the filter on a "
                   "second iteration")
            first = places
            require(all(a < b for a, b in zip(first, first[1:])),
                    "{}: numbers offered to the filter: {}", w, first)
        eq(tuple(z.getActive()), tuple(o.f.getActive()), w + ": active range")
        rec.step(2)
        # None ends the traversal
        for stop in base:
            o.elems(o.f.prune(lambda i, c, p: None if c == stop
                              else bool(keep >> c & 1)),
                    [c for c in base if c < stop and keep >> c & 1],
                    f"{w}, None at {stop}")
            rec.step()
        if o.fmt == "C":
            for sp in range(len(spec)):
                o.elems(o.f.prune(tr, start_pos=sp),
                        [c for c in base if keep >> c & 1
                         and c >= spec[sp][0]], f"{w} start_pos={sp}")
                rec.step()
    # filter on payload
    if o.depth == 1:
        for v in {o.default} | {v for _, v in spec}:
            o.elems(o.f.prune(lambda i, c, p: p == v),
                    [c for c in base
                     if (M.lookup(spec, c) if M.lookup(spec, c) is not None
                         else o.default) == v], f"{o.what}: prune(p == {v})")
    require(o.snap() == before, "{}: prune changed the fiber", o.what)
    rec.state(("q",) + case)
    rec.ok()


def chk_tuple(case, rec):
    """Tuple coordinates (flattened ranks)"""
    spec, default = case
    pts = [(0, 0), (0, 1), (1, 0), (1, 1)]
    f = Fiber([pts[i] for i, _ in spec], [v for _, v in spec],
              default=default, shape=(2, 2))
    st = dict(zip(f.coords, f.payloads))
    pr = [pts[i] for i, v in spec if v != default]
    w = f"tuple fiber {f.coords} default {default}"

    def same(it, want, tr, what):
        got = list(it)
        eq([c for c, _ in got], want, f"{w}: {what}")
        for c, p in got:
            require(p is st[tr(c)], "{}: {}: payload at {}", w, what, c)
        rec.step()
    same(f, pr, lambda c: c, "default iteration")
    same(f.iterOccupancy(), pr, lambda c: c, "iterOccupancy")
    for lo in [None] + pts:
        for hi in [None] + pts + [(2, 2)]:
            same(f.iterRange(lo, hi), [c for c in pr if (lo is None or c >= lo)
                                       and (hi is None or c < hi)],
                 lambda c: c, f"iterRange({lo},{hi})")
    got = list(f.iterUncompressed())
    eq([c for c, _ in got], pts, f"{w}: iterUncompressed")
    for c, p in got:
        require(p is st[c] if c in st else isinstance(p, Payload)
                and p.value == default, "{}: iterUncompressed: payload at {}",
                w, c)
    eq(list(f.iterShapeCoords()), pts, f"{w}: iterShapeCoords")
    same(f.prune(lambda i, c, p: c[1] == 0), [c for c in pr if c[1] == 0],
         lambda c: c, "prune")
    for da, db in itertools.product((0, 1, -1), repeat=2):
        for iv in (None, ((0, 0), (2, 2)), ((0, 1), (1, 1)), ((1, 0), (1, 1))):
            want = [(c[0] + da, c[1] + db) for c in pr]
            want = [c for c in want if iv is None or iv[0] <= c < iv[1]]
            same(f.project(lambda c: (c[0] + da, c[1] + db), interval=iv),
                 want, lambda c: (c[0] - da, c[1] - db),
                 f"project({da:+},{db:+}) {iv}")
    same(f.project(lambda c: (1 - c[0], 1 - c[1])),
         sorted((1 - c[0], 1 - c[1]) for c in pr),
         lambda c: (1 - c[0], 1 - c[1]), "project reversed")
    same(f.project(lambda c: c[0] * 2 + c[1]), [c[0] * 2 + c[1] for c in pr],
         lambda c: (c // 2, c % 2), "project to integers")
    rec.state(case)
    rec.ok()


# ---------------------------------------------------------------- families

def val(pt):
    return 10 + pt[0]


def specs(depth, S, default):
    if depth == 1:
        return M.specs((S,), val, default)
    opts = [[None, (c, ()), (c, ((0, default),)), (c, ((1, 10 + c),)),
             (c, ((0, default), (1, 10 + c)))] for c in range(S)]
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*opts)]


# ---------------------------------------------------------------- large sizes

def chk_large(case, rec):
    """Sizes far beyond the small bounds: a traversal of every kind, complete,
    over few hundred to a thousand coordinates"""
    key, coords = case
    d = key[3]
    if key[0] == 1:
        spec = tuple((c, 10 + c) for c in coords)
    else:
        spec = tuple((c, ((1, 10 + c),)) for c in coords)
    o = Obj(key, spec)
    f, S = o.f, o.S
    what = f"large {key!r}, {len(spec)} elements from {coords[:3]!r}"
    o.what = what

    def go(it, want, name):
        cs = []
        for c, p in it:
            cs.append(c)
            o.elem(c, p, f"{what}: {name}")
        if cs != list(want):
            w = list(want)
            i = next((i for i, (x, y) in enumerate(zip(cs, w)) if x != y),
                     min(len(cs), len(w)))
            raise Violation(f"{what}: {name}: element {i} is "
                            f"{cs[i:i + 1]!r}, expected {w[i:i + 1]!r} "
                            f"({len(cs)} delivered of {len(w)})")
        rec.step()
    go(f, o.default_iter(), "default iteration")
    go(f.iterOccupancy(), o.present, "iterOccupancy")
    go(f.iterActive(), o.in_range(*o.range), "iterActive")
    go(f.iterShape(), range(o.shape), "iterShape")
    go(f.iterActiveShape(), range(*o.range), "iterActiveShape")
    go(f.iterUncompressed(), range(o.shape), "iterUncompressed")
    cuts = sorted({0, 1, S // 3, S // 2, S - 1, S, S + 70})
    for lo, hi in itertools.combinations(cuts, 2):
        go(f.iterRange(lo, hi), o.in_range(lo, hi), f"iterRange({lo}, {hi})")
        for step in (1, 2, 7):
            go(f.iterRangeShape(lo, hi, step), range(lo, hi, step),
               f"iterRangeShape({lo}, {hi}, {step})")
    for lo in cuts:
        go(f.iterRange(lo, None), o.in_range(lo, None), f"iterRange({lo},)")
        go(f.iterRange(None, lo), o.in_range(None, lo), f"iterRange(,{lo})")
    for sp in sorted({0, 1, len(spec) // 2, len(spec) - 1}):
        if 0 <= sp < len(spec):
            go(f.iterOccupancy(start_pos=sp),
               [c for c in o.present if c >= spec[sp][0]],
               f"iterOccupancy(start_pos={sp})")
    go(f.prune(lambda i, c, p: c % 3 == 0),
       [c for c in o.default_iter() if c % 3 == 0], "prune")
    if key[0] == 1 and o.fmt == "C":
        got = [(c, M.unbox(p)) for c, p in f.project(lambda c: 2 * c + 5)]
        eq(got, [(2 * c + 5, 10 + c) for c in o.present], f"{what}: project")
        got = [(c, M.unbox(p)) for c, p in
               f.project(lambda c: S + 80 - c, interval=(80, 80 + S // 2))]
        eq(got, [(S + 80 - c, 10 + c) for c in reversed(o.present)
                 if 80 <= S + 80 - c < 80 + S // 2],
           f"{what}: reversing project")
    if o.fmt == "C":
        got = [(c, c2) for (c, _), (c2, _) in zip(f.iterOccupancy(),
                                                  f.iterOccupancy())]
        eq(got, [(c, c) for c in o.present], f"{what}: lockstep")
    g = Fiber.fromLazy(f.prune(lambda i, c, p: True))
    eq(M.raw(g), tuple(x for x in spec if x[0] in set(o.default_iter()))
       if o.fmt == "C" else M.raw(g), f"{what}: fromLazy")
    for name, args, want in (("iterRangeShapeRef", (1, S + 3, 2),
                              range(1, S + 3, 2)),
                             ("iterActiveShapeRef", (), range(*o.range)),
                             ("iterShapeRef", (), range(o.shape))):
        f = Obj(key, spec).f
        m = dict(M.raw(f))
        cs = []
        for c, p in getattr(f, name)(*args):
            cs.append(c)
            m.setdefault(c, d if key[0] == 1 else ())
            require(f.payloads[f.coords.index(c)] is p,
                    "{}: {}: the reference at {} is not in the tree", what,
                    name, c)
        eq(cs, list(want), f"{what}: {name}")
        eq(M.raw(f), tuple(sorted(m.items())), f"{what}: {name} tree")
        M.check_fiber(f, what, key[0] if spec else None)
        rec.step()
    rec.state(case)
    rec.ok()


def chk_large_co(case, rec):
    keys, coordss = case
    os = [Obj(k, tuple((c, 10 + c) for c in cs))
          for k, cs in zip(keys, coordss)]
    fs = [o.f for o in os]
    S = os[0].S
    what = f"large coiter {[(k, len(c)) for k, c in zip(keys, coordss)]!r}"
    for o in os:
        o.what = what
    for name, args, want in (
            ("coiterShape", (), range(os[0].shape)),
            ("coiterActiveShape", (), range(*os[0].range)),
            ("coiterRangeShape", (0, S, 1), range(S)),
            ("coiterRangeShape", (3, S + 9, 4), range(3, S + 9, 4))):
        cs = []
        for c, ps in getattr(Fiber, name)(fs, *args):
            cs.append(c)
            for o, p in zip(os, M.unbox(ps)):
                o.elem(c, p, f"{what}: {name}")
        eq(cs, list(want), f"{what}: {name}{args}")
        rec.step()
    for name, args, want in (
            ("coiterActiveShapeRef", (), range(*os[0].range)),
            ("coiterRangeShapeRef", (3, S + 9, 4), range(3, S + 9, 4))):
        os = [Obj(k, tuple((c, 10 + c) for c in cs))
              for k, cs in zip(keys, coordss)]
        fs = [o.f for o in os]
        ms = [dict(M.raw(f)) for f in fs]
        cs = []
        for c, ps in getattr(Fiber, name)(fs, *args):
            cs.append(c)
            for f, m, p, o in zip(fs, ms, M.unbox(ps), os):
                m.setdefault(c, o.default)
                require(f.payloads[f.coords.index(c)] is p,
                        "{}: {}: the reference at {} is not in the tree",
                        what, name, c)
        eq(cs, list(want), f"{what}: {name}{args}")
        for f, m in zip(fs, ms):
            eq(M.raw(f), tuple(sorted(m.items())), f"{what}: {name} tree")
        rec.step()
    rec.state(case)
    rec.ok()


def large_patterns(S):
    return [tuple(range(S)), tuple(range(0, S, 2)), tuple(range(S - 2, S)),
            (0, S - 1), (), tuple(range(5, S, 17)), (S - 1,)]


def K(depth=1, S=4, kind="fiber", default=0, fmt="C", act=None, auth=True):
    return (depth, S, kind, default, fmt, act, auth)


def gen(keys):
    def g():
        for k in keys:
            for s in specs(k[0], k[1], k[3]):
                yield (k, s)
    return g


def families(tier):
    q = tier == "quick"
    S = 4 if q else 5
    acts = [None, (0, 2), (1, 3), (1, 5), (2, 2), (3, 4)]
    base = [K(1, S), K(1, S, "tensor", 3), K(1, S, auth=False),
            K(1, S, "tensor", auth=False)]
    base += [K(1, S, "fiber", 0, fm, a) for fm in ("C", "U")
             for a in acts[1:]] + [K(1, S, "tensor", 3, "U", None),
                                   K(1, S, "tensor", 0, "U", (1, 3)),
                                   K(1, S, "tensor", 0, "U", None, False)]
    deep = [K(2, 3, kd, d, fm, a) for kd, d in (("fiber", 0), ("tensor", 0),
                                                ("tensor", 2))
            for fm in ("C", "U") for a in (None, (1, 3))]
    if not q:
        deep += [K(2, 4, "tensor", 0, "C", None), K(2, 4, "tensor", 0, "U",
                                                    (1, 4))]
    def longs():
        for key in [K(1, 10), K(1, 10, "tensor", 3), K(1, 10, act=(2, 7)),
                    K(1, 10, fmt="U")]:
            for s in M.wide(10, lambda p: 10 + p[0], key[3]):
                yield (key, s)
    out = [Family("modes-long", longs, chk_modes, "26 long fibers over 10 "
                  "coordinates x all modes/ranges/steps"),
           Family("starts-long", longs, chk_starts, "the same, all start "
                  "positions"),
           Family("modes", gen(base + deep), chk_modes,
                  f"depth 1 shape {S} and depth 2 shape 3x2: all fibers x "
                  "formats x active ranges x all modes/ranges/steps"),
           Family("starts", gen(base + deep), chk_starts,
                  "all start positions, windows chained through the saved "
                  "position"),
           Family("refs", gen([K(1, 3), K(1, 3, "tensor", 3),
                               K(1, 3, "fiber", act=(1, 5)),
                               K(1, 3, "tensor", fmt="U", act=(0, 2)),
                               K(1, 3, auth=False),
                               K(2, 2, "tensor"), K(2, 2, "tensor", 2),
                               K(2, 2), K(2, 2, "tensor", act=(1, 3))]
                              + ([] if q else [K(1, 4), K(2, 3, "tensor")])),
                  chk_refs, "reference variants, complete and abandoned at "
                  "every element, with and without writes")]

    def co():
        Sc = 3
        ks = [K(1, Sc), K(1, Sc, "tensor", 3, "U", (1, 3))]
        for k1, k2 in itertools.product(ks, repeat=2):
            for a in specs(1, Sc, k1[3]):
                for b in specs(1, Sc, k2[3]):
                    yield ((k1, k2), (a, b))
        d = [K(2, 2, "tensor"), K(2, 2, "fiber", act=(0, 1))]
        for k1, k2 in itertools.product(d, repeat=2):
            for a in specs(2, 2, 0):
                for b in specs(2, 2, 0):
                    yield ((k1, k2), (a, b))
        for a in specs(1, 2, 0):
            yield ((K(1, 2, act=(0, 3)),), (a,))
            for b in specs(1, 2, 5):
                for c in specs(1, 2, 0):
                    yield ((K(1, 2), K(1, 2, "tensor", 5), K(1, 3)),
                           (a, b, c))
    out.append(Family("coiter", co, chk_co, "dense co-iteration of 1-3 "
                      "fibers, with and without references"))

    def lz():
        Sl = 3
        for fx, fy in (("C", "C"), ("U", "C"), ("C", "U")):
            for name in LAZY:
                if name in ("int3", "union3") and "U" in (fx, fy) and q:
                    continue
                kx = K(1, Sl, "tensor", 0, fx, None)
                ky = K(1, Sl, "fiber", 0, fy, None)
                for a in specs(1, Sl, 0):
                    for b in (specs(1, Sl, 0) if name in
                              ("&", "|", "^", "-", "int3", "union3", "lf",
                               "active") else [()]):
                        yield ((kx, ky), (a, b), name)
        for name in LAZY:
            kx, ky = K(1, 2, "tensor", 3), K(1, 2, "fiber", 4)
            for a in specs(1, 2, 3):
                for b in specs(1, 2, 4):
                    yield ((kx, ky), (a, b), name)
            kx, ky = K(2, 2, "tensor"), K(2, 2, "fiber")
            for a in specs(2, 2, 0):
                for b in specs(2, 2, 0):
                    yield ((kx, ky), (a, b), name)
    out.append(Family("lazy", lz, chk_lazy, "lazy results: repeated, "
                      "interleaved, abandoned traversals, ranges, "
                      "materialisation"))
    out.append(Family("iterator", gen([K(1, 4), K(1, 4, "tensor", 3),
                                       K(2, 3, "tensor")]), chk_unlazy_iter,
                      "fibers made from iterators"))
    pk = [K(1, S), K(1, S, "tensor", 3), K(1, S, fmt="U"),
          K(1, S, act=(1, 3)), K(1, S, fmt="U", act=(1, 3)),
          K(1, S, auth=False), K(2, 3, "tensor"), K(2, 3, fmt="U")]
    out.append(Family("project", gen(pk), chk_project, "11 affine transforms "
                      "x all intervals around the image x start positions"))
    out.append(Family("project2", gen([K(1, 4), K(1, 4, "tensor", 3, "U"),
                                       K(2, 3, "tensor")]), chk_project2,
                      "projection of projections and prunes"))
    out.append(Family("prune", gen(pk), chk_prune, "all coordinate filters"))

    # stored zeros under a default that is not zero
    zk = [K(1, 3, kd, 3, fm, a) for kd in ("fiber", "tensor")
          for fm in "CU" for a in (None, (1, 3))]

    def zeros():
        for k in zk:
            for s in M.specs((3,), lambda p: p[0] % 2, 3):
                yield (k, s)
        for k in (K(2, 2, "tensor", 3), K(2, 2, "tensor", 3, "U")):
            for s in M.specs((2, 2), lambda p: p[1], 3):
                yield (k, s)

    def all_of(case, rec):
        for chk in (chk_modes, chk_starts, chk_refs, chk_project, chk_prune,
                    chk_unlazy_iter):
            chk(case, rec)
    out.append(Family("zeros", zeros, all_of, "default 3, stored values 0 "
                      "and 1: modes, starts, references, projections, "
                      "filters"))

    def zlazy():
        kx, ky = K(1, 2, "tensor", 3), K(1, 2, "fiber", 4)
        for name in LAZY:
            for a in M.specs((2,), lambda p: p[0], 3):
                for b in M.specs((2,), lambda p: 0, 4):
                    yield ((kx, ky), (a, b), name)
    out.append(Family("lazy-zeros", zlazy, chk_lazy, "lazy results of fibers "
                      "with stored zeros under defaults 3 and 4"))

    def tp():
        for d in (0, 3):
            for s in M.specs((4,), lambda p: 10 + p[0], d):
                yield (s, d)

    def large():
        for n in (70, 130, 300) if q else (70, 130, 300, 1030, 2100):
            for key in (K(1, n), K(1, n, "tensor", 3), K(1, n, fmt="U"),
                        K(1, n, "tensor", act=(n // 3, n + 66)),
                        K(1, n, auth=False), K(2, n, "tensor")):
                for cs in large_patterns(n):
                    yield (key, cs)
    out.append(Family("large", large, chk_large, "70, 130 and 300 "
                      "coordinates (thorough: to 2100) x 7 patterns: all "
                      "modes"))

    def largeco():
        n = 130 if q else 1030
        ks = [K(1, n), K(1, n, "tensor", 3, "U"), K(1, n, act=(3, n - 3))]
        for k1, k2 in itertools.product(ks, repeat=2):
            for a, b in itertools.product(large_patterns(n)[:5], repeat=2):
                yield ((k1, k2), (a, b))
    out.append(Family("large-coiter", largeco, chk_large_co, "130 "
                      "coordinates (thorough: 1030): dense co-iteration"))
    out.append(Family("tuple", tp, chk_tuple, "tuple coordinates"))
    return out
