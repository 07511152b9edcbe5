"""C18 - format footprints add up from the tree exactly."""

import copy
import itertools

from fibertree import Fiber
from fibertree.model.format import Format

from .. import hist as H
from .. import model as M
from .. import xform as X
from ..core import Family, Violation, eq, require
from . import c01

RULE = ("For every small tree (explicit defaults and empty sub-fibers "
        "included), every assignment of C/U to its ranks and field widths that "
        "make every count readable from the total (distinct powers of a large "
        "base), getElem, getFiber, getRank, getRoot, getTensor and getSubTree "
        "at every point (stored, absent, full) must equal sums over a raw walk "
        "of the tree; specifications with every subset of the fields missing "
        "must behave as the completed ones; the same holds on the results of "
        "every transform, and in every state reached by histories of mutators "
        "with the Format made before them.")
ASSUMPTIONS = [
    "the occupancy of a fiber is the number of its stored elements, explicit "
    "defaults included (len)",
    "the footprint of a full point is that of one element of the last rank",
    "a rank of tuple coordinates has no uncompressed traversal",
]

B = 1 << 20
FIELDS = ("rhbits", "fhbits", "cbits", "pbits")


def widths(level):
    """each field its own power of a large base"""
    return {f: B ** (1 + 4 * level + i) for i, f in enumerate(FIELDS)}


def full_spec(ids, fmts):
    spec = {"root": {"hbits": B ** 13, "pbits": B ** 14}}
    for i, (r, f) in enumerate(zip(ids, fmts)):
        spec[r] = dict(widths(i), format=f,
                       layout=("interleaved", "contiguous")[i % 2])
    return spec


class Walk:
    """footprints from the raw tree"""

    def __init__(self, raw, depth, shape, spec, ids, default):
        self.raw, self.depth, self.shape = raw, depth, shape
        self.default = default
        self.w = [{f: spec.get(r, {}).get(f, 0) for f in FIELDS} for r in ids]
        self.fmt = [spec.get(r, {}).get("format", "C") for r in ids]
        root = spec.get("root", {})
        self.root = root.get("hbits", 0) + root.get("pbits", 0)

    def fiber(self, sub, lv):
        n = len(sub) if self.fmt[lv] == "C" else self.shape[lv]
        w = self.w[lv]
        return w["fhbits"] + n * (w["cbits"] + w["pbits"])

    def level(self, lv):
        cur = [self.raw]
        for _ in range(lv):
            cur = [s for f in cur for _, s in f]
        return cur

    def rank(self, lv):
        return self.w[lv]["rhbits"] + sum(self.fiber(f, lv)
                                          for f in self.level(lv))

    def tensor(self):
        return self.root + sum(self.rank(i) for i in range(self.depth))

    def at(self, pt):
        cur = self.raw
        for c in pt:
            cur = dict(cur).get(c, ())
        return cur

    def subtree(self, sub, lv):
        res = self.fiber(sub, lv)
        if lv + 1 == self.depth:
            return res
        if self.fmt[lv] == "U":
            have = dict(sub)
            kids = [have.get(c, ()) for c in range(self.shape[lv])]
        else:
            kids = [s for _, s in sub
                    if not M.is_empty(s, self.depth - lv - 1, self.default)]
        return res + sum(self.subtree(k, lv + 1) for k in kids)


def points(raw, depth, shape, ids=None):
    """prefixes: every coordinate of the shape, stored ones included"""
    out = [()]
    level = [((), raw)]
    for lv in range(depth - 1):
        nxt = []
        for pt, sub in level:
            have = dict(sub)
            s = shape[lv]
            cs = sorted(set(have) | set(range(s) if isinstance(s, int) else ()))
            for c in cs:
                nxt.append((pt + (c,), have.get(c, ())))
        level = nxt
        out += [p for p, _ in level]
    return out


def compare(fm, t, w, ids, what, rec, full_points=False):
    raw = M.raw_t(t)
    for lv, r in enumerate(ids):
        eq(fm.getRank(r), w.rank(lv), f"{what}: rank {r}")
    eq(fm.getRoot(), w.root, f"{what}: root")
    eq(fm.getTensor(), w.tensor(), f"{what}: tensor")
    for pt in points(raw, w.depth, w.shape):
        sub = w.at(pt)
        eq(fm.getFiber(*pt), w.fiber(sub, len(pt)), f"{what}: fiber at {pt}")
        eq(fm.getSubTree(*pt), w.subtree(sub, len(pt)),
           f"{what}: sub-tree at {pt}")
        if full_points and len(pt) == w.depth - 1:
            for c in range(w.shape[-1]):
                eq(fm.getSubTree(*pt, c), w.w[-1]["cbits"] + w.w[-1]["pbits"],
                   f"{what}: element {pt + (c,)}")
    eq(M.raw_t(t), raw, f"{what}: tree after the queries")
    e = M.mirror_error(t)
    require(not e, "{}: after the queries: {}", what, e)
    rec.step()
    rec.ok()
    rec.outcome(w.tensor())


# ---------------------------------------------------------------- families

def ck_tree(case, rec):
    depth, shape, spec, default, declared, tfmt = case
    ids = ["M", "N", "K"][:depth]
    t = M.mk_tensor(spec, depth, list(shape) if declared else None, default,
                    ids, tfmt, fiber_shape=declared)
    sh = list(shape) if declared else t.getShape()
    raw = M.raw_t(t)
    for fmts in itertools.product("CU", repeat=depth):
        fs = full_spec(ids, fmts)
        fm = Format(t, fs)
        w = Walk(raw, depth, sh, fs, ids, default)
        compare(fm, t, w, ids, f"{case} formats {fmts}", rec,
                fmts == ("C",) * depth)
    rec.state(case)


def gen_trees(full):
    v = M.linval
    for tf in (None, ("U",)):
        for s in M.specs((3,), v((3,))):
            yield 1, (3,), s, 0, True, tf
            yield 1, (5,), s, 0, True, tf
    for s in M.specs((3,), v((3,)), 7):
        yield 1, (3,), s, 7, True, None
    for s in M.specs((4,), v((4,))):
        yield 1, (4,), s, 0, False, None
    for s in M.specs((2, 3), v((2, 3))):
        yield 2, (2, 3), s, 0, True, None
        yield 2, (3, 4), s, 0, True, None
        yield 2, (2, 3), s, 0, False, None
    for s in M.specs((2, 2), v((2, 2))):
        yield 2, (2, 2), s, 0, True, ("U", "U")
        yield 2, (2, 2), s, 0, True, ("C", "U")
    for s in M.specs((2, 2), v((2, 2)), 7):
        yield 2, (2, 2), s, 7, True, None
    for s in M.specs((3, 2), v((3, 2))):
        yield 2, (3, 2), s, 0, True, None
    for s in M.specs((2, 2, 2), v((2, 2, 2))):
        yield 3, (2, 2, 2), s, 0, True, None
        if full:
            yield 3, (2, 3, 2), s, 0, True, None
            yield 3, (2, 2, 2), s, 0, False, None
    if full:
        for s in M.specs((3, 2, 1), v((3, 2, 1))):
            yield 3, (3, 2, 2), s, 0, True, None
        for s in M.specs((2, 1, 3), v((2, 1, 3))):
            yield 3, (3, 2, 3), s, 0, True, None
        for s in M.specs((2, 2, 2), v((2, 2, 2)), 7):
            yield 3, (2, 2, 2), s, 7, True, None


def gen_large(full):
    """sizes far beyond the small bounds"""
    for tf in (None, "U"):
        for n in (70, 300) + ((1100,) if full else ()):
            for d in (0, 7):
                for s in M.wide(n, lambda p: 10 + p[0], d):
                    yield 1, (n + 3,), s, d, True, tf and (tf,)
                    if not tf and s:
                        yield 1, (n,), s, d, False, None
        for shape in ((70, 3), (3, 80), (12, 11)) + \
                (((150, 9), (7, 8, 9)) if full else ((5, 4, 6),)):
            for s in M.lattice(shape, lambda p: 1 + sum(p))[::2]:
                yield len(shape), shape, s, 0, True, \
                    tf and (tf,) * len(shape)
                if not tf:
                    yield len(shape), shape, s, 0, False, None


def ck_fields(case, rec):
    """every subset of the fields missing"""
    depth, missing, fmts, roots, spec = case
    ids = ["M", "N", "K"][:depth]
    shape = [2, 3][:depth]
    fs = full_spec(ids, fmts)
    part = {}
    for r, miss in zip(ids, missing):
        if miss == "all":
            continue
        part[r] = {k: v for k, v in fs[r].items() if k not in miss}
    if roots is not None:
        part["root"] = {k: v for k, v in fs["root"].items() if k not in roots}
    given = copy.deepcopy(part)
    t = M.mk_tensor(spec, depth, shape, 0, ids)
    fm = Format(t, part)
    w = Walk(M.raw_t(t), depth, shape, given, ids, 0)
    for r in ids:
        g = given.get(r, {})
        got = (fm.getRHBits(r), fm.getFHBits(r), fm.getCBits(r), fm.getPBits(r),
               fm.getFormat(r), fm.getLayout(r))
        eq(got, tuple(g.get(f, 0) for f in FIELDS) +
           (g.get("format", "C"), g.get("layout", "contiguous")),
           f"{case}: fields of {r}")
        eq([fm.getElem(r, x) for x in ("coord", "payload", "elem")],
           [g.get("cbits", 0), g.get("pbits", 0),
            g.get("cbits", 0) + g.get("pbits", 0)], f"{case}: elements of {r}")
    compare(fm, t, w, ids, repr(case), rec, True)
    # a second format over the completed specification
    compare(Format(t, fm.spec), t, w, ids, f"{case}, again", rec)
    rec.state(case)


def gen_fields(full):
    names = FIELDS + ("format", "layout")
    subs = [c for n in range(7) for c in itertools.combinations(names, n)]
    tree1 = ((0, 1), (2, 3))
    for m in subs + ["all"]:
        for f in "CU":
            for roots in (None, (), ("hbits",), ("pbits",), ("hbits", "pbits")):
                yield 1, (m,), (f,), roots, ((0, 1),)
    some = subs if full else [s for s in subs if len(s) in (0, 1, 5, 6)]
    for m1 in some + ["all"]:
        for m2 in some + ["all"]:
            for f in itertools.product("CU", repeat=2):
                yield 2, (m1, m2), f, None, ((1, tree1),)


def ck_xform(case, rec):
    depth, shape, spec, x = case
    ids = ["M", "N", "K"][:depth]
    t = M.mk_tensor(spec, depth, list(shape), 0, ids)
    try:
        r = X.apply(t, x)
    except Exception:
        return      # the transforms are the subject of other properties
    rid = r.getRankIds()
    sh = r.getShape()
    if not all(isinstance(i, str) for i in rid) or len(set(rid)) != len(rid):
        return
    raw = M.raw_t(r)
    for fmts in itertools.product("CU", repeat=len(rid)):
        if any(f == "U" and not isinstance(s, int) for f, s in zip(fmts, sh)):
            continue
        if "U" in fmts and any(neg(raw, len(rid), lv) for lv, f in
                               enumerate(fmts) if f == "U"):
            continue
        fs = full_spec(rid, fmts)
        if len(rid) > 3:
            fs["root"] = {"hbits": B ** 30, "pbits": B ** 31}
        compare(Format(r, fs), r, Walk(raw, len(rid), sh, fs, rid,
                                       r.getDefault()), rid,
                f"{case} formats {fmts}", rec)
    rec.state((x, raw))


def neg(raw, depth, lv):
    cur = [raw]
    for _ in range(lv):
        cur = [s for f in cur for _, s in f]
    return any(not isinstance(c, int) or c < 0 for f in cur for c, _ in f)


def gen_xform(full):
    for depth, shape in ((1, (3,)), (2, (2, 2)), (2, (2, 3)), (3, (2, 2, 2))):
        if shape == (2, 3) and not full:
            continue
        al = X.alphabet(depth, list(shape), ["M", "N", "K"][:depth])
        sh = shape if depth < 3 or full else (2, 2, 1)
        for s in M.specs(sh, M.linval(sh), explicit=depth < 3):
            for x in al:
                yield depth, shape, s, x


# the format is made once per tensor, before the history (through pickle it
# travels with the tensor of the explored state)

def inv(conf, t, what):
    ids = t.getRankIds()
    depth = conf.depth
    sh = list(conf.shape) if conf.auth else t.getShape()
    raw = M.raw_t(t)
    for lv in range(depth):
        # writes beyond the declared shape leave it behind
        if any(c >= sh[lv] for f in _level(raw, lv) for c, _ in f):
            sh = t.getShape()
    for fmts in itertools.product("CU", repeat=depth):
        fs = full_spec(ids, fmts)
        compare(Format(t, fs), t, Walk(raw, depth, sh, fs, ids, conf.default),
                ids, f"{what} formats {fmts}", _NONE)


class _None:
    step = ok = outcome = staticmethod(lambda *a: None)


_NONE = _None()


def _level(raw, lv):
    cur = [raw]
    for _ in range(lv):
        cur = [s for f in cur for _, s in f]
    return cur


def ck_live(case, rec):
    """one Format, queried before, between and after mutations"""
    spec, fmts, muts = case
    ids, shape = ["M", "N"], [3, 3]
    t = M.mk_tensor(spec, 2, shape, 0, ids)
    fs = full_spec(ids, fmts)
    fm = Format(t, fs)
    for i in range(len(muts) + 1):
        compare(fm, t, Walk(M.raw_t(t), 2, shape, fs, ids, 0), ids,
                f"{case} after {i} mutations", rec)
        if i < len(muts):
            mutate(t, muts[i])
    rec.state(case)


def mutate(t, m):
    k, a, b = m
    if k == "ref":
        p = t.getPayloadRef(a, b)
        p += 5
    elif k == "path":
        t.getPayloadRef(a)
    elif k == "append":
        r = t.getRoot()
        if not len(r) or r.coords[-1] < a:
            r.append(a, Fiber([b], [9]))
    elif k == "set":
        r = t.getRoot()
        if len(r) > a:
            r[a] = Fiber([b], [4])
    elif k == "clear":
        t.getRoot().clear()
    elif k == "populate":
        src = M.mk_tensor(((a, ((b, 3),)), (2, ((0, 1),))) if a < 2 else
                          ((2, ((b, 3),)),), 2, [3, 3], 0, ["M", "N"])
        for _, (z, s) in t.getRoot() << src.getRoot():
            for _, (zr, v) in z << s:
                zr += v


def gen_live(full):
    al = [("ref", 0, 2), ("ref", 2, 0), ("path", 1, 0), ("append", 2, 1),
          ("set", 0, 1), ("clear", 0, 0), ("populate", 1, 1),
          ("populate", 0, 2)]
    trees = list(M.specs((2, 2), M.linval((2, 2)), explicit=False))
    for s in trees:
        for fmts in itertools.product("CU", repeat=2):
            for n in ((1, 2, 3) if full else (1, 2)):
                for muts in itertools.product(al, repeat=n):
                    yield s, fmts, muts


def families(tier):
    full = tier == "thorough"
    C = H.Conf
    hist = [("h1", C("tensor", 1, 3, 0, (1,), "C", True, 2)),
            ("h1-est", C("tensor", 1, 3, 0, (1,), "C", False, 2)),
            ("h2", C("tensor", 2, 2, 0, (1,), "C", True, 1)),
            ("h2-U", C("tensor", 2, 2, 0, (1,), "U", True, 1))]
    if full:
        hist += [("h2-default", C("tensor", 2, 2, 3, (1,), "C", True, 1)),
                 ("h2-2", C("tensor", 2, 2, 0, (1,), "C", True, 2, True)),
                 ("h3", C("tensor", 3, 2, 0, (1,), "C", True, 1, True))]
    return [
        Family("trees", lambda: gen_trees(full), ck_tree,
               "all trees of depth 1-3 (shapes up to 3x4 / 2x2x2), declared "
               "and estimated shapes, tensor rank formats C and U, x all "
               "assignments of C/U, every point"),
        Family("large", lambda: gen_large(full), ck_tree,
               "70 and 300 coordinates (thorough: 1100), 70x3, 3x80, 12x11, "
               "5x4x6 x all assignments of C/U, every point"),
        Family("fields", lambda: gen_fields(full), ck_fields,
               "every subset of missing fields per rank and of the root"),
        Family("xform", lambda: gen_xform(full), ck_xform,
               "results of every transform of every small tree x all "
               "assignments of C/U"),
        Family("live", lambda: gen_live(full), ck_live,
               f"one Format kept over histories of <= {3 if full else 2} "
               f"mutations"),
    ] + [c01.fam(n, c, inv) for n, c in hist]
