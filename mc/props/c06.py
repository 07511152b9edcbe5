"""C06 - kernel results do not depend on the dataflow used to compute them."""

import itertools

from fibertree import Fiber, Payload, Tensor

from .. import model as M
from ..core import Family, Skip, Violation, eq, require

RULE = ("A generic interpreter runs every program of the bound (expression x "
        "loop order x tile size per index x absolute or relative tiles x "
        "co-iteration style x declared or estimated output) in the library's "
        "idiom - operands are split and swizzled by the library, factors are "
        "co-iterated by intersection, the output is driven by populate and "
        "reduced by in-place update - on every operand tuple of the bound, and "
        "compares the content of the output with the dense value of the "
        "expression. The output's tree is also checked against its ranks, "
        "and the operands against what they held.")
ASSUMPTIONS = [
    "operand values: distinct integers, integers whose sums of products "
    "cancel, integers mixed with dyadic fractions, integers beyond 64 bits "
    "(float rounding is out of scope: every sum in the bound is exact)",
]

# ---------------------------------------------------------------- programs

ONE = [("", ("k",)), ("", ("k", "k")), ("", ("k", "k", "k")),
       ("k", ("k",)), ("k", ("k", "k")), ("k", ("k", "k", "k"))]

TWO = [("m", ("mk",)), ("k", ("mk",)), ("", ("mk",)), ("mk", ("mk",)),
       ("km", ("mk",)), ("m", ("mk", "k")), ("k", ("mk", "m")),
       ("", ("mk", "k", "m")), ("mk", ("mk", "mk")), ("mk", ("m", "k")),
       ("mk", ("mk", "k")), ("km", ("k", "mk")), ("m", ("mk", "mk")),
       ("m", ("m", "mk", "k")), ("mk", ("mk", "m", "k")), ("m", ("mk", "km")),
       ("", ("mk", "mk")), ("", ("m", "k"))]

THREE = [("mn", ("mk", "kn")), ("mn", ("mk", "nk")), ("nm", ("mk", "kn")),
         ("m", ("mk", "kn")), ("", ("mk", "kn")), ("mn", ("mk", "kn", "mn")),
         ("", ("mk", "kn", "mn")), ("mkn", ("m", "k", "n")), ("m", ("mkn",)),
         ("nk", ("mkn",)), ("mn", ("mkn", "k")), ("mn", ("mkn", "kn")),
         ("m", ("mkn", "k", "n")), ("mkn", ("mkn", "mk")),
         ("mn", ("mk", "kn", "k")), ("kn", ("mk", "kn", "m"))]

STYLES = {1: ("and",), 2: ("and", "inter", "lf"),
          3: ("and", "right", "inter", "lf")}


def indices(expr):
    return sorted(set("".join(expr[1])))


def styles(expr):
    n = max(sum(x in op for op in expr[1]) for x in indices(expr))
    return STYLES[n]


def loops_of(idx, tiles):
    """rank names iterated: index or its two tile ranks"""
    out = []
    for x in idx:
        if x in tiles:
            out += [x + "1", x + "0"]
        else:
            out.append(x)
    return out


def rid(r):
    """rank id of a loop: k -> K, k1 -> K.1"""
    return r.upper() if len(r) == 1 else f"{r[0].upper()}.{r[1]}"


def ranks_for(op, order):
    return [r for r in order if r[0] in op]


# ---------------------------------------------------------------- interpreter

def prepare(t, op, order, tiles, rel):
    """operand split and swizzled to match the loop order"""
    for x in op:
        if x in tiles:
            t = t.splitUniform(tiles[x], rankid=x.upper(), relativeCoords=rel)
    want = [rid(r) for r in ranks_for(op, order)]
    if t.getRankIds() != want:
        t = t.swizzleRanks(want)
    return t


def coiterate(fibers, style):
    if len(fibers) == 1:
        return fibers[0]
    if style == "and":
        f = fibers[0]
        for g in fibers[1:]:
            f = f & g
        return f
    if style == "right":
        f = fibers[-1]
        for g in fibers[-2::-1]:
            f = g & f
        return f
    if style == "inter":
        return Fiber.intersection(*fibers)
    return Fiber.intersection(*fibers, style="leader-follower")


def unpack(p, n, style):
    if n == 1:
        return [p]
    if style == "and":
        out = []
        for _ in range(n - 1):
            p, last = p
            out.insert(0, last)
        return [p] + out
    if style == "right":
        out = []
        for _ in range(n - 1):
            first, p = p
            out.append(first)
        return out + [p]
    return list(p)


UPDATES = ("plain", "set", "rset", "scale", "imul", "number")


def update(z, cur, upd, lf):
    """z := z + the product, in one of the ways it can be written"""
    if upd == "imul":
        prod = Payload(1)
        for v in cur:
            prod *= v
    elif upd == "scale":
        # a plain factor on either side
        prod = 2 * cur[0] * 0.25
        for v in cur[1:]:
            prod = prod * v
        prod = prod * 2
    else:
        prod = cur[0]
        for v in cur[1:]:
            prod = prod * (Payload.get(v) if upd == "number" else v)
    if lf and prod == 0:
        return
    if upd == "plain":
        z += Payload.get(prod)
    elif upd == "set":
        z <<= z + prod
    elif upd == "rset":
        z <<= Payload.get(prod) + z
    else:
        z += prod


def kernel(out, ops, order, level, cur, z, style, rec, upd="+="):
    """cur: operand -> its current fiber or value"""
    if level == len(order):
        update(z, cur, upd, style == "lf")
        return
    r = order[level]
    who = [i for i, op in enumerate(ops) if r[0] in op]
    co = coiterate([cur[i] for i in who], style)
    if r[0] in out:
        for c, (z_ref, p) in z << co:
            rec.steps += 1
            nxt = list(cur)
            for i, v in zip(who, unpack(p, len(who), style)):
                nxt[i] = v
            kernel(out, ops, order, level + 1, nxt, z_ref, style, rec,
                   upd)
    else:
        for c, p in co:
            rec.steps += 1
            nxt = list(cur)
            for i, v in zip(who, unpack(p, len(who), style)):
                nxt[i] = v
            kernel(out, ops, order, level + 1, nxt, z, style, rec, upd)


# ---------------------------------------------------------------- oracle

def dense_eval(expr, dims, conts):
    out, ops = expr
    idx = indices(expr)
    res = {}
    for pt in itertools.product(*(range(dims[x]) for x in idx)):
        env = dict(zip(idx, pt))
        v = 1
        for op, c in zip(ops, conts):
            v *= c.get(tuple(env[x] for x in op), 0)
            if v == 0:
                break
        if v:
            key = tuple(env[x] for x in out)
            res[key] = res.get(key, 0) + v
    return {k: v for k, v in res.items() if v}


# ---------------------------------------------------------------- the check

def chk(case, rec):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case[:9]
    upd = case[9] if len(case) > 9 else "+="
    out, ops = expr
    dims, tiles = dict(dims), dict(tiles)
    w = f"Z[{out}] = {' * '.join(ops)} loops {order} tiles {tiles} " \
        f"{'relative ' if rel else ''}style {style} operands {specs!r}" \
        f"{'' if declared else ' output of estimated shape'}" \
        f"{' uncompressed' if fmt == 'U' else ''}" \
        f"{'' if upd == '+=' else ' update ' + upd}"
    tensors, prepared = [], []
    for i, (op, s) in enumerate(zip(ops, specs)):
        ids = [x.upper() for x in op]
        t = M.mk_tensor(s, len(op), shape=tuple(dims[x] for x in op),
                        rank_ids=ids, fmts=fmt * len(op))
        tensors.append(t)
        prepared.append(prepare(t, op, order, tiles, rel))
    held = [M.raw_t(t) for t in prepared]
    zr = ranks_for(out, order)
    kw = {"shape": [dims[r[0]] for r in zr]} if declared else {}
    z = Tensor(rank_ids=[rid(r) for r in zr], **kw)
    kernel(out, ops, order, 0, [t.getRoot() for t in prepared], z.getRoot(),
           style, rec, upd)
    want = dense_eval(expr, dims,
                      [M.content(s, len(op)) for op, s in zip(ops, specs)])
    root = z.getRoot()
    if not out:
        got = M.unbox(root)
        require(not isinstance(got, Fiber), "{}: rank-0 output holds a fiber",
                w)
        eq(got, want.get((), 0), f"{w}: value of the output")
    else:
        M.check_tensor(z, w)
        got = {}
        for pt, v in M.code_content(root).items():
            key = []
            for x in out:
                cs = [c for c, r in zip(pt, zr) if r[0] == x]
                if x not in tiles:
                    key.append(cs[0])
                else:
                    hi, lo = (pt[zr.index(x + "1")], pt[zr.index(x + "0")])
                    key.append(hi + lo if rel else lo)
                    require(hi % tiles[x] == 0 and
                            (rel or hi <= lo < hi + tiles[x]),
                            "{}: output point {} outside its tile", w, pt)
            key = tuple(key)
            require(key not in got, "{}: output point {} written in two tiles",
                    w, key)
            got[key] = v
        eq(got, want, f"{w}: content of the output")
    for t, h in zip(prepared, held):
        if M.raw_t(t) != h:
            raise Violation(f"{w}: an operand changed from {h!r} to "
                            f"{M.raw_t(t)!r}")
    rec.ok()
    rec.outcome(tuple(sorted(got.items())) if out else got)
    rec.state(case)


def chk_back(case, rec):
    """the tiled, swizzled output brought back by the library"""
    expr, dims, specs, order, tiles = case
    out, ops = expr
    dims, tiles = dict(dims), dict(tiles)
    w = f"Z[{out}] = {' * '.join(ops)} loops {order} tiles {tiles} operands " \
        f"{specs!r}, output merged and swizzled back"
    prepared = [prepare(M.mk_tensor(s, len(op),
                                    shape=tuple(dims[x] for x in op),
                                    rank_ids=[x.upper() for x in op]),
                        op, order, tiles, False)
                for op, s in zip(ops, specs)]
    zr = ranks_for(out, order)
    z = Tensor(rank_ids=[rid(r) for r in zr],
               shape=[dims[r[0]] for r in zr])
    kernel(out, ops, order, 0, [t.getRoot() for t in prepared], z.getRoot(),
           "and", rec)
    names = []
    for x in out:
        names += [rid(x + "1"), rid(x + "0")] if x in tiles else [rid(x)]
    z = z.swizzleRanks(names)
    for d in range(len(out)):
        if out[d] in tiles:
            z = z.mergeRanks(depth=d, levels=1, coord_style="absolute")
    want = dense_eval(expr, dims,
                      [M.content(s, len(op)) for op, s in zip(ops, specs)])
    eq(M.code_content(z.getRoot()), want, f"{w}: content")
    ref = Tensor.fromFiber([x.upper() for x in out],
                           M.mk_fiber(M.from_content(want, len(out)),
                                      len(out)),
                           shape=[dims[x] for x in out])
    # ids of merged ranks are lists; the trees must be equal
    require(z.getRoot() == ref.getRoot(), "{}: output differs (==) from the "
            "dense reference", w)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- families

def val_distinct(i):
    return lambda pt: 2 + i + sum(3 ** (j + 1) * c for j, c in enumerate(pt))


def val_cancel(i):
    return lambda pt: (-1) ** (sum(pt) + i)


def val_mixed(i):
    """integers and dyadic fractions; some sums are integers or cancel"""
    vs = (1, 0.5, -0.5, 2, -1.5, 3.25, -1, 0.25, True)
    return lambda pt: vs[(2 * i + sum((j + 2) * c for j, c in enumerate(pt)))
                         % len(vs)]


def val_big(i):
    """sums cancel only in exact arithmetic"""
    return lambda pt: (-1) ** sum(pt) * (2 ** 64 + i) + (sum(pt) == 1)


def families(tier):
    q = tier == "quick"

    def spread(xs, n):
        if len(xs) <= n:
            return xs
        return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]

    cache = {}

    def pool(level, shape, i, val):
        """level 3: all specs with explicit zeros and empty sub-fibers; 2: all
        presence patterns; 1: representative ones"""
        key = (level, shape, i, val.__name__)
        if key in cache:
            return cache[key]
        v = val(i)
        if level == 3:
            out = list(M.specs(shape, v, 0))
        else:
            pts = list(itertools.product(*map(range, shape)))
            if level == 2:
                out = [M.from_content({p: v(p) for p, b in zip(pts, bits)
                                       if b}, len(shape))
                       for bits in itertools.product((0, 1),
                                                     repeat=len(pts))]
            else:
                full = {p: v(p) for p in pts}
                diag = {p: v(p) for p in pts if len(set(p)) == 1}
                last = {pts[-1]: v(pts[-1])}
                out = [M.from_content(full, len(shape)),
                       M.from_content(diag, len(shape))]
                if len(shape) > 1:
                    row = {p: v(p) for p in pts if p[0] == 0}
                    col = {p: v(p) for p in pts if p[-1] == 1}
                    out += [M.from_content(row, len(shape)),
                            M.from_content(col, len(shape)),
                            # an empty sub-fiber and an explicit zero
                            ((0, M.from_content(
                                {p: 0 if p[-1] == 0 else v(p)
                                 for p in itertools.product(
                                    *map(range, shape[1:]))},
                                len(shape) - 1)), (1, ()))]
                else:
                    out += [((0, 0), (1, v((1,))))]
                out += [(), M.from_content(last, len(shape))]
        cache[key] = out
        return out

    def inputs(expr, dims, level, val, cap=None):
        pools = [pool(level, tuple(dims[x] for x in op), i, val)
                 for i, op in enumerate(expr[1])]
        if cap:
            pools = [p[:cap] if level == 1 else spread(p, cap) for p in pools]
        return itertools.product(*pools)

    def tilings(idx, dims, many):
        """dict index -> tile"""
        opts = []
        for x in idx:
            sizes = [s for s in range(1, dims[x] + 1)]
            opts.append([None] + sizes)
        for combo in itertools.product(*opts):
            n = sum(c is not None for c in combo)
            if n == 0 or n > many:
                continue
            yield {x: c for x, c in zip(idx, combo) if c is not None}

    def case(expr, dims, specs, order, tiles=(), rel=False, style="and",
             declared=True, fmt="C"):
        return (expr, tuple(sorted(dims.items())), tuple(specs), tuple(order),
                tuple(sorted(dict(tiles).items())), rel, style, declared, fmt)

    DIMS = {"m": 2, "k": 2, "n": 2}

    def untiled(exprs, dims, level, val, cap=None, all_styles=True):
        for expr in exprs:
            for order in itertools.permutations(indices(expr)):
                for specs in inputs(expr, dims, level, val, cap):
                    for st in styles(expr) if all_styles else ("and",):
                        yield case(expr, dims, specs, order, style=st)

    def tiled(exprs, dims, level, val, cap=None, many=1, rels=(False,),
              tiles_first=False, sts=None):
        for expr in exprs:
            idx = indices(expr)
            for tiles in tilings(idx, dims, many):
                for order in itertools.permutations(loops_of(idx, tiles)):
                    if tiles_first and any(
                            order.index(x + "1") > order.index(x + "0")
                            for x in tiles):
                        continue
                    for rel in rels:
                        if rel and any(order.index(x + "1") >
                                       order.index(x + "0") for x in tiles):
                            pass
                        for specs in inputs(expr, dims, level, val, cap):
                            for st in sts or styles(expr):
                                yield case(expr, dims, specs, order, tiles,
                                           rel, st)

    def f_one():
        d = {"k": 3}
        yield from untiled(ONE, d, 3 if not q else 3, val_distinct,
                           None if not q else 14)
        yield from untiled(ONE, d, 2, val_cancel)
        yield from tiled(ONE, d, 2, val_cancel, rels=(False, True))
        if not q:
            yield from tiled(ONE, {"k": 4}, 2, val_distinct,
                             rels=(False, True))

    def f_two():
        yield from untiled(TWO, {"m": 2, "k": 2}, 2, val_cancel,
                           None if not q else 10)
        yield from untiled(TWO, {"m": 2, "k": 3}, 1, val_distinct)
        for e in TWO:
            if len(e[1]) < 3:
                yield from untiled([e], {"m": 2, "k": 2}, 3, val_distinct,
                                   30 if q else 81, all_styles=False)

    def f_two_tiled():
        yield from tiled(TWO, {"m": 2, "k": 3}, 1, val_cancel, many=1,
                         cap=4 if q else None,
                         rels=(False, True), sts=("and", "lf") if q else None)
        yield from tiled(TWO, {"m": 2, "k": 3}, 1, val_distinct, cap=3,
                         many=2, tiles_first=q, sts=("and",))

    def f_three():
        yield from untiled(THREE, DIMS, 1, val_distinct, 5 if q else None)
        for e in THREE[:5]:
            yield from untiled([e], DIMS, 2, val_cancel, None,
                               all_styles=not q)
        if not q:
            yield from untiled([e for e in THREE[5:] if "mkn" not in e[1]],
                               DIMS, 2, val_cancel, 12, all_styles=False)
            yield from untiled(THREE[:5], {"m": 2, "k": 3, "n": 2}, 2,
                               val_distinct, 40, all_styles=False)

    def f_three_tiled():
        yield from tiled(THREE, DIMS, 1, val_cancel, many=1,
                         cap=2 if q else 4, sts=("and",))
        yield from tiled(THREE[:2], {"m": 2, "k": 3, "n": 2}, 1, val_distinct,
                         cap=3 if q else 5, many=1, rels=(False, True),
                         tiles_first=q, sts=("and", "lf"))
        if not q:
            yield from tiled(THREE[:6], DIMS, 1, val_distinct, cap=3, many=2,
                             tiles_first=True, sts=("and",))

    def f_formats():
        """uncompressed operands and outputs of estimated shape"""
        for expr in ONE + TWO + (THREE[:6] if q else THREE):
            idx = indices(expr)
            d = {"m": 2, "k": 3, "n": 2}
            for order in itertools.permutations(idx):
                for specs in inputs(expr, d, 1, val_distinct, 4):
                    for st in styles(expr):
                        for dec, fmt in ((False, "C"), (True, "U")):
                            yield case(expr, d, specs, order, style=st,
                                       declared=dec, fmt=fmt)

    def f_values():
        """other values, other ways to write the reduction"""
        d = {"m": 2, "k": 3, "n": 2}
        step = 0
        for val in (val_mixed, val_big):
            for expr in ONE + TWO + THREE[:6]:
                idx = indices(expr)
                cap = 4 if len(idx) < 3 else 2
                for upd in ("+=",) + UPDATES:
                    if upd == "scale" and val is val_big:
                        continue
                    for tiles in [{}] + list(tilings(idx, d, 1)):
                        for order in itertools.permutations(
                                loops_of(idx, tiles)):
                            for st in styles(expr):
                                for specs in inputs(expr, d, 1, val, cap):
                                    step += 1
                                    if tiles and step % (
                                            43 if q else 5):
                                        continue
                                    yield case(expr, d, specs, order, tiles,
                                               style=st) + (upd,)

    def f_back():
        for expr in ONE + TWO + THREE[:4]:
            if not expr[0]:
                continue
            idx = indices(expr)
            d = {"m": 2, "k": 3, "n": 2}
            for tiles in tilings(list(expr[0]), d, 1 if q else 2):
                loops = loops_of(idx, tiles)
                for order in itertools.permutations(loops):
                    if len(order) > 3 and any(
                            order.index(x + "1") > order.index(x + "0")
                            for x in tiles):
                        continue
                    for specs in inputs(expr, d, 1, val_cancel, 3):
                        yield (expr, tuple(sorted(d.items())), specs, order,
                               tuple(sorted(tiles.items())))

    def f_large():
        """extents far beyond the small bounds"""
        def big(shape, i, dens):
            v = val_distinct(i)
            pts = itertools.product(*map(range, shape))
            return M.from_content(
                {p: v(p) for n, p in enumerate(pts)
                 if dens == 1 or (n * (i + 3) + i) % dens == i % dens},
                len(shape))
        for exprs, ds in ((ONE, [{"k": 70}, {"k": 131}]),
                          (TWO, [{"m": 3, "k": 70}, {"m": 66, "k": 5}]),
                          (THREE if not q else THREE[:6],
                           [{"m": 3, "k": 34, "n": 4},
                            {"m": 4, "k": 3, "n": 33}])):
            for expr in exprs:
                idx = indices(expr)
                for d in ds:
                    tl = [{}] + [{x: s} for x in idx for s in (7, 32, 65)
                                 if s <= d[x]]
                    for dens in (1, 3, 11):
                        specs = [big(tuple(d[x] for x in op), i, dens)
                                 for i, op in enumerate(expr[1])]
                        for tiles in tl:
                            orders = list(itertools.permutations(
                                loops_of(idx, tiles)))
                            orders = [o for o in orders if all(
                                o.index(x + "1") < o.index(x + "0")
                                for x in tiles)]
                            for order in orders if not q or not tiles else \
                                    orders[::3]:
                                for st in styles(expr):
                                    yield case(expr, d, specs, order, tiles,
                                               style=st)

    return [
        Family("large", f_large, chk, "extents 70, 131, 3x70, 66x5, 3x34x4, "
               "4x3x33; 3 densities; tiles of 7, 32 and 65"),
        Family("one-index", f_one, chk, "6 expressions over one index of "
               "extent 3 x all operand fibers x styles x tiles 1-3, absolute "
               "and relative"),
        Family("two-index", f_two, chk, "18 expressions over two indices x "
               "both loop orders x operand trees (2,2)/(2,3) x styles"),
        Family("two-index-tiled", f_two_tiled, chk, "the same x tile sizes of "
               "one or both indices x every order of the tiled loops"),
        Family("three-index", f_three, chk, "16 expressions over three indices "
               "x 6 loop orders; all 256 operand patterns for the matrix "
               "products"),
        Family("three-index-tiled", f_three_tiled, chk, "the same x tile sizes "
               "of one index x 24 loop orders"),
        Family("formats", f_formats, chk, "all loop orders x styles with "
               "uncompressed operands or an output of estimated shape"),
        Family("values", f_values, chk, "integers mixed with fractions, "
               "integers beyond 64 bits; the product and the reduction "
               "written in 7 ways (plain numbers on either side, in-place "
               "product, assignment); every 43rd (thorough: 5th) tiled "
               "program"),
        Family("back", f_back, chk_back, "tiled outputs merged and swizzled "
               "back by the library"),
    ]
