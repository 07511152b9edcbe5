"""C13 - conversions between representations are lossless."""

import itertools
import os
import random

from fibertree import Fiber, Payload, Tensor

from .. import model as M
from .. import xform
from ..core import Family, Skip, Violation, eq, require

RULE = ("Every rectangular nest of the bound is converted to a fiber and a "
        "tensor and back; every tree of the bound (explicit defaults and empty "
        "sub-fibers included) is uncompressed and compared with its dense "
        "evaluation; every such tree, every result of a transform of it and "
        "every rank-0 tensor is dumped to a file / a dictionary and loaded "
        "back; random construction is executed for every seed x shape x "
        "density x default x interval of the bound.")
ASSUMPTIONS = [
    "every dimension of a nest is at least 1",
    "payloads are ints, floats and booleans; names are arbitrary strings",
    "random construction is asked to fill a shape only where the value range "
    "1..interval holds a value other than the default",
]

IDS = ["M", "N", "K", "J"]


# ---------------------------------------------------------------- nests

def dense(cont, shape, default, pt=()):
    if len(pt) == len(shape):
        return cont.get(pt, default)
    return [dense(cont, shape, default, pt + (i,))
            for i in range(shape[len(pt)])]


def nest_of(vals, shape):
    it = iter(vals)

    def go(d):
        if d == len(shape):
            return next(it)
        return [go(d + 1) for _ in range(shape[d])]
    return go(0)


def nest_content(vals, shape, default):
    return {pt: v for pt, v in
            zip(itertools.product(*[range(s) for s in shape]), vals)
            if v != default}


def nothing_stored(f, depth, default, what):
    """no explicit default and no empty sub-fiber stored"""
    for c, p in zip(f.coords, f.payloads):
        p = M.unbox(p)
        if depth == 1:
            if isinstance(p, Fiber) or p == default:
                raise Violation(f"{what}: stores an explicit default at {c}: "
                                f"{M.raw(f)!r}")
        else:
            if not isinstance(p, Fiber) or not p.coords:
                raise Violation(f"{what}: stores an empty sub-fiber at {c}: "
                                f"{M.raw(f)!r}")
            nothing_stored(p, depth - 1, default, what)


def same_nest(got, want, what):
    if got != want or not lists_eq(got, want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def lists_eq(a, b):
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and \
            all(lists_eq(x, y) for x, y in zip(a, b))
    return not isinstance(a, (list, Payload, Fiber)) and a == b


def no_alias(nest, what):
    """the lists of a nest are distinct objects"""
    seen = set()

    def go(n):
        if isinstance(n, list):
            if id(n) in seen:
                raise Violation(f"{what}: one list object appears twice")
            seen.add(id(n))
            for x in n:
                go(x)
    go(nest)


def chk_nest(case, rec):
    shape, vals, default = case
    depth = len(shape)
    shape = list(shape)
    cont = nest_content(vals, shape, default)
    nest = nest_of(vals, shape)
    w = f"nest {nest!r} default {default!r}"

    f = Fiber.fromUncompressed(nest, default=default)
    eq(nest, nest_of(vals, shape), f"{w}: fromUncompressed changed its input")
    M.check_fiber(f, w, depth if cont else None)
    eq(M.code_content(f, default), cont, f"{w}: fiber content")
    nothing_stored(f, depth, default, f"{w}: fiber")
    eq(f.getShape(all_ranks=False), shape[0], f"{w}: fiber top shape")
    eq(f.getShape(), shape, f"{w}: fiber shape")
    back = f.uncompress(shape)
    same_nest(back, nest, f"{w}: fiber uncompressed")
    no_alias(back, w)
    same_nest(f.uncompress(), nest, f"{w}: fiber uncompressed to its shape")
    rec.step(3)

    t = Tensor.fromUncompressed(IDS[:depth], nest, default=default, name="T",
                                color="blue")
    M.check_tensor(t, w, depth if cont else None)
    eq(nest, nest_of(vals, shape), f"{w}: fromUncompressed changed its input")
    eq(M.code_content(t.getRoot(), default), cont, f"{w}: tensor content")
    nothing_stored(t.getRoot(), depth, default, f"{w}: tensor")
    eq(t.getShape(), shape, f"{w}: tensor shape")
    eq(t.getShape(authoritative=True), shape, f"{w}: authoritative shape")
    eq(t.getRankIds(), IDS[:depth], f"{w}: rank ids")
    eq(M.unbox(t.getDefault()), default, f"{w}: tensor default")
    eq((t.getName(), t.getColor()), ("T", "blue"), f"{w}: name, color")
    r = t.getRoot()
    same_nest(r.uncompress(), nest, f"{w}: tensor uncompressed")
    same_nest(r.uncompress(shape), nest, f"{w}: tensor uncompressed to shape")
    for pt in itertools.product(*[range(s) for s in shape]):
        v = t.getPayload(*pt)
        if M.unbox(v) != cont.get(pt, default):
            raise Violation(f"{w}: read of {pt} is {v!r}")
    # a larger imposed shape
    big = [s + 1 for s in shape]
    tb = Tensor.fromUncompressed(IDS[:depth], nest, shape=big, default=default)
    eq(tb.getShape(), big, f"{w}: imposed shape")
    same_nest(tb.getRoot().uncompress(), dense(cont, big, default),
              f"{w}: uncompressed to the imposed shape")
    same_nest(f.uncompress(big), dense(cont, big, default),
              f"{w}: fiber uncompressed to a larger shape")
    if vals == (vals[0],) * len(vals):
        tp = Tensor.makePopulated(IDS[:depth], shape, initial=vals[0],
                                  default=default)
        eq(M.code_content(tp.getRoot(), default), cont, f"{w}: makePopulated")
        eq(tp.getShape(), shape, f"{w}: makePopulated shape")
        same_nest(tp.getRoot().uncompress(), nest, f"{w}: makePopulated "
                  "uncompressed")
        tp = Tensor.makePopulated(IDS[:depth], shape, initial=vals[0])
        same_nest(tp.getRoot().uncompress(), nest, f"{w}: makePopulated "
                  "(no default) uncompressed")
    rec.step(6)
    rec.ok()
    rec.state(case)
    rec.outcome(repr(back))


def chk_scalar(case, rec):
    v, default, name = case
    t = Tensor.fromUncompressed([], v, name=name)
    eq(M.unbox(t.getRoot()), v, "rank-0 value")
    eq(t.getShape(), [], "rank-0 shape")
    eq(t.getRankIds(), [], "rank-0 rank ids")
    eq(t.getName(), name, "rank-0 name")
    r = yaml_trip(t)
    same_tensor(t, r, f"rank-0 {v!r} {name!r}")
    eq(type(M.unbox(r.getRoot())), type(v), "type of a reloaded rank-0 value")
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- uncompress

def chk_uncompress(case, rec):
    shape, spec, default, kind, fmts = case
    depth = len(shape)
    cont = M.content(spec, depth, default)
    w = f"{kind} {spec!r} shape {shape} default {default!r} formats {fmts}"
    if kind == "fiber":
        f = M.mk_fiber(spec, depth, default, shape)
        # interior levels created by fromUncompressed have the leaf default
    else:
        f = M.mk_tensor(spec, depth, shape=shape, default=default,
                        fmts=fmts).getRoot()
    before = M.snap(f) if kind == "fiber" else None
    for extra in (0, 1):
        sh = [s + extra for s in shape]
        same_nest(f.uncompress(sh), dense(cont, sh, default),
                  f"{w}: uncompress({sh})")
        rec.step()
    if kind != "fiber":
        same_nest(f.uncompress(), dense(cont, shape, default),
                  f"{w}: uncompress()")
        # and back
        t = Tensor.fromUncompressed(IDS[:depth], f.uncompress(),
                                    default=default)
        eq(M.code_content(t.getRoot(), default), cont, f"{w}: and back")
        if not t.getRoot() == f:
            raise Violation(f"{w}: compressing the uncompressed tree gives an "
                            f"unequal tree {t.getRoot()!r}")
    elif before != M.snap(f):
        raise Violation(f"{w}: uncompress changed the fiber")
    rec.ok()
    rec.state((shape, spec, default))


# ---------------------------------------------------------------- YAML / dict

def path():
    return os.path.join(os.environ["MC_SCRATCH"], f"c13-{os.getpid()}.yaml")


def yaml_trip(t, ctor=None):
    p = path()
    t.dump(p)
    try:
        return (ctor or Tensor.fromYAMLfile)(p)
    finally:
        os.unlink(p)


def default_of(t):
    return M.unbox(t.getDefault()) if t.getRankIds() else None


def same_tensor(t, r, w, shape=True):
    eq(r.getRankIds(), t.getRankIds(), f"{w}: reloaded rank ids")
    if shape:
        eq(r.getShape(), t.getShape(), f"{w}: reloaded shape")
    eq(r.getName(), t.getName(), f"{w}: reloaded name")
    if not (r == t and t == r) or r != t:
        raise Violation(f"{w}: reloaded tensor is not equal: {r!r} from {t!r}")
    if not t.getRankIds():
        if M.unbox(r.getRoot()) != M.unbox(t.getRoot()):
            raise Violation(f"{w}: reloaded value {r.getRoot()!r}")
        return
    d = default_of(t)
    eq(default_of(r), d, f"{w}: reloaded leaf default")
    eq(M.code_content(r.getRoot(), d), M.code_content(t.getRoot(), d),
       f"{w}: reloaded content")
    M.check_tensor(r, w)


def chk_yaml(case, rec):
    shape, spec, default, auth, name, x = case
    depth = len(shape)
    t = M.mk_tensor(spec, depth, shape=shape if auth else None,
                    default=default, rank_ids=IDS[:depth], name=name,
                    fiber_shape=auth)
    w = f"tensor {spec!r} shape {shape if auth else None} default " \
        f"{default!r} name {name!r}"
    if x is not None:
        w += f" after {x}"
        if x == ("updatePayloads-float",):
            t = t.updatePayloads(lambda i, c, p: p.value + 0.5,
                                 depth=depth - 1)
        else:
            try:
                t = xform.apply(t, x)
            except AssertionError:
                raise Skip("transform not applicable")
    raw0 = M.raw_t(t)
    d = t.getRoot().fiber2dict()
    r = yaml_trip(t)
    same_tensor(t, r, w)
    eq(M.raw_t(t), raw0, f"{w}: dumping changed the tensor")
    if x is None:
        r2 = yaml_trip(r)
        same_tensor(t, r2, f"{w} (twice)")
        r3 = yaml_trip(t, lambda p: Tensor(yamlfile=p))
        same_tensor(t, r3, f"{w} (constructor form)")
    # the root fiber by itself, file and dictionary form
    f = t.getRoot()
    g = Fiber.dict2fiber(d)
    dv = default_of(t)
    for g, how in ((g, "dictionary"),
                   (yaml_trip(f, lambda p: Fiber.fromYAMLfile(p)), "file")):
        M.check_fiber(g, f"{w} {how}")
        eq(M.raw(g), raw0, f"{w}: fiber reloaded from a {how}")
        for pt, v in M.stored_live(g).items():
            if isinstance(v, (Payload, Fiber)):
                raise Violation(f"{w} {how}: payload {v!r} at {pt}")
        if dv == 0 and not (g == f and f == g):
            raise Violation(f"{w}: fiber reloaded from a {how} is not equal: "
                            f"{g!r} from {f!r}")
    # the dictionary form is a value of its own
    h = Fiber.dict2fiber(d)
    if h.coords:
        h.clear()
        h2 = Fiber.dict2fiber(d)
        eq(M.raw(h2), raw0, f"{w}: changing a fiber made from a dictionary "
           "changed the dictionary")
        eq(M.raw_t(t), raw0, f"{w}: changing a fiber made from a dictionary "
           "changed the tensor it came from")
    rec.step(4)
    rec.ok()
    rec.state((shape, raw0, default, x))
    rec.outcome(repr(d))


def chk_fiber_yaml(case, rec):
    """one-level fibers with given coordinates, and their attributes given
    again when loading"""
    coords, vals, default, shape = case
    f = Fiber(list(coords), list(vals), default=default, shape=shape)
    w = f"fiber {coords!r} {vals!r} default {default!r} shape {shape!r}"
    g = yaml_trip(f, lambda p: Fiber.fromYAMLfile(p, default=default,
                                                  shape=shape))
    eq(list(g.coords), list(coords), f"{w}: coords")
    eq([type(c) for c in g.coords], [type(c) for c in coords],
       f"{w}: coordinate types")
    eq([M.unbox(p) for p in g.payloads], list(vals), f"{w}: payloads")
    if not (f == g and g == f):
        raise Violation(f"{w}: reloaded fiber {g!r} is not equal")
    eq(g.getShape(), f.getShape(), f"{w}: shape")
    eq(g.getDefault(), f.getDefault(), f"{w}: default")
    rec.step()
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- random

def chk_random(case, rec):
    shape, density, default, interval, seed = case
    shape = list(shape)
    depth = len(shape)
    density = list(density) if isinstance(density, tuple) else density
    w = f"fromRandom({shape}, {density}, interval={interval}, seed={seed}, " \
        f"default={default!r})"

    def tensor():
        return Tensor.fromRandom(IDS[:depth], shape, density, interval, seed,
                                 name="R", default=default)

    def fiber():
        return Fiber.fromRandom(shape, density, interval, seed,
                                default=default)
    t = tensor()
    random.random()
    t2 = tensor()
    f = fiber()
    random.seed(99)
    f2 = fiber()
    d = [density] if not isinstance(density, list) else density
    eq(shape, list(case[0]), f"{w}: the shape argument changed")
    for r, what in ((t.getRoot(), "tensor"), (f, "fiber")):
        raw = M.raw(r)
        M.check_fiber(r, f"{w} {what}", depth if raw else None)
        for pt, v in M.stored_live(r).items():
            if len(pt) != depth or not all(
                    isinstance(c, int) and 0 <= c < s
                    for c, s in zip(pt, shape)):
                raise Violation(f"{w} {what}: point {pt} outside the shape")
            if not isinstance(v, int) or not (0 <= v <= interval):
                raise Violation(f"{w} {what}: value {v!r}")
        if all(x == 1.0 for x in d):
            got = set(M.code_content(r, default))
            want = set(itertools.product(*[range(s) for s in shape]))
            if got != want:
                raise Violation(f"{w} {what}: density 1 leaves "
                                f"{sorted(want - got)} at the default")
        if all(x == 0.0 for x in d) and default == 0:
            if M.code_content(r, default):
                raise Violation(f"{w} {what}: density 0 gives {raw!r}")
    M.check_tensor(t, w)
    eq(t.getShape(authoritative=True), shape, f"{w}: shape")
    eq(t.getRankIds(), IDS[:depth], f"{w}: ids")
    eq(t.getName(), "R", f"{w}: name")
    eq(M.unbox(t.getDefault()), default, f"{w}: default")
    eq(M.raw_t(t2), M.raw_t(t), f"{w}: not reproducible")
    eq(M.raw(f2), M.raw(f), f"{w}: not reproducible (fiber)")
    eq(M.raw(f), M.raw_t(t), f"{w}: fiber and tensor differ")
    require(t == t2, "{}: tensors differ", w)
    rec.step(4)
    rec.ok()
    rec.state((case[0], M.raw(f)))
    rec.outcome(M.raw(f))


# ---------------------------------------------------------------- odd values

BIG = [0.1 + 0.2, 1 / 3, 1e-300, 5e-324, 1.7976931348623157e308,
       123456789.123456789, 2.0 ** 53 + 2, 1e16, 1e22, 1e23, -1e-7, 0.1, 1e5,
       100.0, -0.0, float("inf"), float("-inf"), 2 ** 70, -2 ** 63, 2 ** 31,
       10 ** 30, True, False, 8, 10, 0o17, 60, 3600]
ODD_IDS = [["1"], ["null"], ["yes"], ["a b"], ["é:#"], ["K.0"], ["~"],
           ["[M]"], ["- M"], ["0x10"], ["1e3"], [" M"], ["M "], ["M\nN"],
           ["'M'"], ['"M"'], ["{}"], ["%M"], ["@M"], ["&M"], ["*M"], ["!M"],
           ["|"], [">"], ["?"], ["M, N"], ["1_000"], ["12:30:45"],
           ["2001-01-01"], [".inf"], [".nan"], [""], ["=", "<<"]]


def exact(a, b):
    return type(a) is type(b) and a == b and str(a) == str(b)


def chk_values(case, rec):
    """every value comes back with its type and all its digits, through every
    conversion"""
    v, depth, default, use = case
    w = f"value {v!r} depth {depth} default {default!r}"
    if depth == 0:
        t = Tensor.fromUncompressed([], v)
        require(exact(M.unbox(yaml_trip(t).getRoot()), v), "{}: reloaded {!r}",
                w, t)
        g = yaml_trip(t).getRoot()
        rec.ok()
        rec.step()
        rec.state(case)
        return
    shape = [2] * depth
    pts = [(0,) * depth, (1,) * depth]
    vals = dict(zip(pts, (v, 4)))
    cont = {k: x for k, x in vals.items() if x != default}
    nest = dense(vals, shape, default)
    if use == "nest":
        t = Tensor.fromUncompressed(IDS[:depth], nest, default=default)
        f = Fiber.fromUncompressed(nest, default=default)
    elif use == "refs":
        t = Tensor(rank_ids=IDS[:depth], shape=shape, default=default)
        for k, x in vals.items():
            r = t.getPayloadRef(*k)
            r <<= x
        f = None
    else:
        t = M.mk_tensor(M.from_content(vals, depth), depth, shape=shape,
                        default=default, rank_ids=IDS[:depth])
        f = M.mk_fiber(M.from_content(vals, depth), depth, default)

    def exactly(root, how):
        got = M.content(M.raw(root), depth, default)
        eq(set(got), set(cont), f"{w} {use} {how}: points")
        for k in cont:
            require(exact(got[k], cont[k]), "{} {} {}: {!r} at {}", w, use,
                    how, got[k], k)
        rec.step()
    for root, how in ((t.getRoot(), "tensor"), (f, "fiber")):
        if root is None:
            continue
        exactly(root, how)
        back = root.uncompress(shape)
        for pt in itertools.product((0, 1), repeat=depth):
            x = back
            for i in pt:
                x = x[i]
            require(not isinstance(x, (Payload, Fiber)) and
                    exact(x, vals.get(pt, default)) or
                    pt not in cont and x == default,
                    "{} {} {}: uncompressed to {!r}", w, use, how, back)
        exactly(Fiber.dict2fiber(root.fiber2dict()), how + " by dictionary")
        g = yaml_trip(root, lambda p: Fiber.fromYAMLfile(p))
        exactly(g, how + " by file")
    r = yaml_trip(t)
    exactly(r.getRoot(), "tensor by file")
    same_tensor(t, r, f"{w} {use}")
    eq(default_of(r), default, f"{w} {use}: default")
    d = t.getRoot()
    for c in t.getRoot().copy(), Fiber.fromUncompressed(d.uncompress(shape),
                                                        default=default):
        exactly(c, "copied")
    rec.ok()
    rec.state(case)


def chk_ids(case, rec):
    """rank ids and names that YAML would read as something else"""
    ids, depth, spec, name = case
    ids = list(ids) + IDS[:depth - len(ids)]
    t = M.mk_tensor(spec, depth, shape=[2] * depth, rank_ids=ids, name=name)
    r = yaml_trip(t)
    same_tensor(t, r, f"ids {ids!r} name {name!r}")
    require(all(type(i) is str for i in r.getRankIds()), "ids {!r}: types",
            ids)
    require(type(r.getName()) is str, "name {!r}: {!r}", name, r.getName())
    rec.ok()
    rec.step()
    rec.state(case)


def chk_large(case, rec):
    """sizes far beyond the small bounds"""
    shape, pat, default = case
    depth = len(shape)
    pts = list(itertools.product(*[range(s) for s in shape]))
    if pat == "sparse":
        cont = {p: 10 + i for i, p in enumerate(pts) if i % 7 == 3}
    elif pat == "dense":
        cont = {p: 10 + i for i, p in enumerate(pts)}
    elif pat == "last":
        cont = {pts[-1]: 11}
    else:
        cont = {p: 1.5 * i for i, p in enumerate(pts) if p[0] % 2 and i}
    cont = {p: v for p, v in cont.items() if v != default}
    nest = dense(cont, shape, default)
    w = f"large {shape} {pat} default {default!r}"
    spec = M.from_content(cont, depth)

    def check(root, how):
        if M.raw(root) != spec:
            a, b = M.content(M.raw(root), depth, default), cont
            raise Violation(f"{w}: {how}: differs at " + repr(
                sorted(k for k in set(a) | set(b)
                       if a.get(k) != b.get(k))[:3]))
        rec.step()
    f = Fiber.fromUncompressed(nest, default=default)
    check(f, "fiber")
    require(f.uncompress(list(shape)) == nest, "{}: uncompressed", w)
    t = Tensor.fromUncompressed(IDS[:depth], nest, default=default)
    check(t.getRoot(), "tensor")
    eq(t.getShape(), list(shape), f"{w}: shape")
    require(t.getRoot().uncompress() == nest, "{}: tensor uncompressed", w)
    r = yaml_trip(t)
    check(r.getRoot(), "reloaded tensor")
    same_tensor(t, r, w)
    check(yaml_trip(f, lambda p: Fiber.fromYAMLfile(p)), "reloaded fiber")
    check(Fiber.dict2fiber(f.fiber2dict()), "dictionary")
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"

    def nests():
        one = [((n,), v) for n in (1, 2, 3)
               for v in ((0, 1, 2.5, -1), )]
        one += [((4,), (0, 1, 2.5)), ((5,), (0, 1))]
        two = [((2, 2), (0, 1, 2.5, -1)), ((1, 3), (0, 1, 2.5, -1)),
               ((3, 1), (0, 1, 2.5, -1)), ((2, 3), (0, 1, -1)),
               ((3, 2), (0, 1, -1)), ((3, 3), (0, 1)), ((1, 1), (0, 1, -1))]
        three = [((1, 1, 1), (0, 1, -1)), ((2, 1, 2), (0, 1, -1)),
                 ((1, 2, 2), (0, 1, -1)), ((2, 2, 1), (0, 1, -1)),
                 ((2, 2, 2), (0, 1)), ((3, 1, 2), (0, 1)), ((1, 3, 2), (0, 1)),
                 ((2, 3, 1), (0, 1))]
        four = [((1, 1, 1, 1), (0, 1, -1)), ((2, 1, 2, 1), (0, 1, -1)),
                ((1, 2, 1, 2), (0, 1, -1)), ((2, 2, 2, 1), (0, 1)),
                ((2, 2, 1, 2), (0, 1)), ((1, 2, 2, 2), (0, 1)),
                ((2, 1, 2, 2), (0, 1))]
        if not q:
            one += [((6,), (0, 1, 2.5))]
            two += [((2, 3), (0, 1, 2.5, -1)), ((3, 3), (0, 1, -1))]
            three += [((2, 2, 2), (0, 1, -1)), ((2, 2, 3), (0, 1))]
            four += [((2, 2, 2, 1), (0, 1, -1)), ((1, 2, 2, 2), (0, 1, -1)),
                     ((2, 2, 2, 2), (0, 1))]
        for shape, vals in one + two + three + four:
            n = 1
            for s in shape:
                n *= s
            for default in (0, 1, -1, 2.5):
                if default not in vals and default == 2.5:
                    continue
                for v in itertools.product(vals, repeat=n):
                    yield (shape, v, default)

    def scalars():
        for v in (0, 1, -3, 2.5, 0.0, 1e30, True, float("inf")):
            for name in ("", "Z", "a b", "yes", "1", "null", "é:#"):
                yield (v, 0, name)

    def unc():
        shapes = [(3,), (2, 2), (1, 3), (2, 1, 2), (1, 2, 2)] + \
            ([] if q else [(4,), (2, 3), (3, 2), (2, 2, 1), (2, 1, 1, 2)])
        for shape in shapes:
            depth = len(shape)
            for default in (0, 3):
                val = M.linval(shape, 10)
                for spec in M.specs(shape, val, default):
                    # an unowned fiber whose leaf level does not exist does
                    # not know the leaf default
                    if default == 0 or M.fibers_of(spec, depth)[-1]:
                        yield (shape, spec, default, "fiber", "C" * depth)
                    for fmts in (["C" * depth, "U" * depth] if depth > 2
                                 else map("".join, itertools.product(
                                     "CU", repeat=depth))):
                        yield (shape, spec, default, "tensor", fmts)

    def yam():
        shapes = [(3,), (2, 2), (1, 1, 2)] + \
            ([] if q else [(4,), (2, 3), (2, 1, 2), (1, 2, 2)])
        for shape in shapes:
            depth = len(shape)
            for default in (0, 3, -1.5):
                val = M.linval(shape, 10)
                for spec in M.specs(shape, val, default):
                    for auth in (True, False):
                        if not auth and not M.stored(spec, depth):
                            continue
                        for name in ("", "T", "yes"):
                            yield (shape, spec, default, auth, name, None)

    def yamx():
        for shape in [(3,), (2, 2), (2, 1, 2)] + \
                ([] if q else [(2, 2, 2), (2, 3)]):
            depth = len(shape)
            for default in (0, 3):
                val = M.linval(shape, 10)
                xs = xform.alphabet(depth, shape, IDS[:depth]) + \
                    [("updatePayloads-float",)]
                xs = [x for x in xs if x[0] not in ("yaml", "deepcopy",
                                                    "nonEmpty")]
                for spec in M.specs(shape, val, default,
                                    explicit=depth < 2 and not q):
                    if not M.stored(spec, depth):
                        continue
                    for x in xs:
                        yield (shape, spec, default, True, "T", x)

    def fy():
        cs = [0, 1, 3, (0, 1), (0, 2), (1, 0), ((0, 1), 2), ((1, 0), 0)]
        for kind in ([0, 1, 3], [(0, 1), (0, 2), (1, 0)],
                     [((0, 1), 2), ((0, 2), 1), ((1, 0), 0)],
                     [(0, 0, 1), (0, 2, 0)]):
            sh = {0: 4, 1: 4}.get(0) if isinstance(kind[0], int) else None
            for n in range(len(kind) + 1):
                for coords in itertools.combinations(kind, n):
                    for vals in itertools.product((0, 1, 2.5, -7), repeat=n):
                        for default in (0, 1, 2.5):
                            for shape in {None, sh}:
                                yield (coords, vals, default, shape)

    def rnd():
        shapes = [(1,), (4,), (2, 2), (3, 2), (2, 2, 2)] + \
            ([] if q else [(7,), (1, 5), (4, 3), (2, 1, 3), (2, 2, 2, 2)])
        for shape in shapes:
            n = len(shape)
            dens = [0.0, 0.5, 1.0, (1.0,) * n, (0.5,) * n, (0.0,) * n]
            if n > 1:
                dens += [(1.0,) * (n - 1) + (0.5,), (0.5,) + (1.0,) * (n - 1)]
            for density in dens:
                for default in (0, 2, 7, -1):
                    if default != 0 and isinstance(density, tuple) and \
                            any(d != 1.0 for d in density[:-1]):
                        # documented to make no sense
                        continue
                    for interval in (1, 3, 10):
                        for seed in list(range(40 if q else 200)) + \
                                ["abc", 2.5]:
                            yield (shape, density, default, interval, seed)

    def values():
        for v in BIG:
            yield (v, 0, 0, "refs")
            for depth in (1, 2, 3):
                for use in ("nest", "refs", "spec"):
                    for default in (0, 1.5):
                        yield (v, depth, default, use)
                    # the value as the default
                    yield (7, depth, v, use)

    def ids():
        for i in ODD_IDS:
            for depth in (1, 2, 3):
                if depth >= len(i):
                    for spec in ((), M.from_content({(0,) * depth: 5},
                                                    depth)):
                        yield (tuple(i), depth, spec, "T")
                        yield (("M",), depth, spec, i[0])

    def large():
        for shape in [(150,), (1100,), (30, 20), (3, 70), (8, 8, 8),
                      (120, 2)] + ([] if q else [(4000,), (70, 70), (20, 9, 8),
                                                 (5, 5, 5, 5)]):
            for pat in ("sparse", "dense", "last", "odd"):
                for default in (0, 3, -1.5):
                    yield (shape, pat, default)
    return [
        Family("values", values, chk_values, "28 values (full float "
               "precision, extremes, big ints, booleans) x depth 0-3 x 3 "
               "constructions x every conversion; also as defaults"),
        Family("ids", ids, chk_ids, "34 rank ids and names with a meaning in "
               "YAML"),
        Family("large", large, chk_large, "6 large shapes (thorough: 10) x 4 "
               "patterns x 3 defaults"),
        Family("nests", nests, chk_nest, "all nests of 35 shapes of depth "
               "1-4 over 2-4 entry values x defaults 0, 1, -1, 2.5"),
        Family("scalars", scalars, chk_scalar, "rank-0 tensors: 8 values x 7 "
               "names"),
        Family("uncompress", unc, chk_uncompress, "all trees (3,), (2,2), "
               "(1,3), (2,1,2), (1,2,2) with explicit defaults and empty "
               "sub-fibers x formats x defaults 0, 3 (thorough: 5 more "
               "shapes)"),
        Family("yaml", yam, chk_yaml, "all trees (3,), (2,2), (1,1,2) x 3 "
               "defaults x authoritative or estimated shape x 3 names "
               "(thorough: 4 more shapes)"),
        Family("yaml-transformed", yamx, chk_yaml, "all trees (3,), (2,2), "
               "(2,1,2) x every transform of the alphabet x 2 defaults"),
        Family("yaml-fiber", fy, chk_fiber_yaml, "all fibers over 3 "
               "coordinates: ints, tuples, nested tuples"),
        Family("random", rnd, chk_random, "5 shapes x 6-8 densities x 4 "
               "defaults x 3 intervals x 42 seeds (thorough: 10 shapes x 202 "
               "seeds)"),
    ]
