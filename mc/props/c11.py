"""C11 - arithmetic on boxes and on fibers agrees with arithmetic on values."""

import itertools
import operator as op

from fibertree import CoordPayload, Fiber, Payload, Tensor

from .. import model as M
from ..core import Family, Violation, eq, require

RULE = ("Every operator x every pair of operand kinds (box, coordinate-payload "
        "element, plain scalar, on either side) x every pair of values is "
        "executed and compared with the same operator on the bare values "
        "(same result or same exception), identity of the updated box "
        "included; then every history of in-place operators up to a depth. "
        "Fiber + and * are executed on every pair of trees (and every scalar) "
        "of the bound and compared with dense pointwise arithmetic, and each "
        "in-place form with its value-returning form.")
ASSUMPTIONS = [
    "operators the two classes define: + - * / == != < <= > >= & | << and the "
    "in-place forms += -= *= /= &= |= <<= (assignment)",
    "fiber + fiber is compared with dense arithmetic for default 0 (elsewhere "
    "the sum of two defaults is not representable); for other defaults the "
    "in-place and value-returning forms are compared with each other",
]

BIN = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv, "==": op.eq,
       "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge,
       "&": op.and_, "|": op.or_, "<<": op.lshift}
INP = {"+=": op.iadd, "-=": op.isub, "*=": op.imul, "/=": op.itruediv,
       "&=": op.iand, "|=": op.ior}
IBIN = {"+=": op.add, "-=": op.sub, "*=": op.mul, "/=": op.truediv,
        "&=": op.and_, "|=": op.or_}
VALS = [-2, -1, 0, 1, 2, 3, 7, 2.5, -0.5, 0.0, float("inf"), True, False, "a",
        "bc", "", (1,), (1, 2), (), frozenset({1}), frozenset({1, 2}),
        frozenset({2}), float("nan")]


def wrap(kind, v, coord=5):
    if kind == "box":
        return Payload(v)
    if kind == "cp":
        return CoordPayload(coord, v)
    if kind == "cpbox":
        return CoordPayload(coord, Payload(v))
    return v


# the coordinate of the right-hand element: the same, below and above (the
# result depends on the payloads only)
RCOORDS = (5, 4, 7)


def value(x):
    if isinstance(x, CoordPayload):
        x = x.payload
    if isinstance(x, Payload):
        x = x.__dict__["value"]
    return x


def same(a, b):
    return a is b or a == b


def outcome(fn, *a):
    try:
        return ("value", fn(*a))
    except (TypeError, ZeroDivisionError, ValueError) as e:
        return ("raises", type(e).__name__)


def sim(a, b):
    return a[0] == b[0] and (a[1] == b[1] or a[1] != a[1] and b[1] != b[1]) \
        and (a[0] != "value" or type(a[1]) is type(b[1]))


def chk_bin(case, rec):
    o, ka, kb, va = case
    for vb, cb in itertools.product(VALS, RCOORDS):
        if cb != 5 and not (ka[:2] == kb[:2] == "cp"):
            continue
        if o == "<<" and (isinstance(vb, int) and vb > 60):
            continue
        want = outcome(BIN[o], va, vb)
        a, b = wrap(ka, va), wrap(kb, vb, cb)
        got = outcome(lambda: BIN[o](a, b))
        w = f"{ka}({va!r}) {o} {kb}({vb!r})"
        if got[0] == "value":
            r = got[1]
            if isinstance(r, Payload) and isinstance(value(r),
                                                     (Payload, CoordPayload)):
                raise Violation(f"{w}: doubly boxed result {r!r}")
            if isinstance(r, CoordPayload):
                raise Violation(f"{w}: result is an element {r!r}")
            if isinstance(r, Payload) and (r is a or r is b):
                raise Violation(f"{w}: the result is an operand")
            got = ("value", value(r))
        if not sim(got, want):
            raise Violation(f"{w}: got {got!r}, expected {want!r}")
        if not same(value(a), va) or not same(value(b), vb):
            raise Violation(f"{w}: an operand changed: {a!r} {b!r}")
        rec.step()
        rec.ok()
        rec.outcome((o, got))
    rec.state(case)


def chk_inp(case, rec):
    o, ka, kb, va = case
    for vb, cb in itertools.product(VALS, RCOORDS):
        if cb != 5 and not (ka[:2] == kb[:2] == "cp"):
            continue
        a, b = wrap(ka, va), wrap(kb, vb, cb)
        box = a.payload if isinstance(a, CoordPayload) else a
        alias = a
        w = f"{ka}({va!r}) {o} {kb}({vb!r})"
        if o == "<<=":
            want = ("value", vb)

            def run():
                x = a
                x <<= b
                return x
        else:
            want = outcome(IBIN[o], va, vb)

            def run():
                return INP[o](a, b)
        got = outcome(run)
        if got[0] == "value":
            r = got[1]
            require(r is alias, "{}: returned {!r}, not the same object", w, r)
            now = a.payload if isinstance(a, CoordPayload) else a
            require(now is box, "{}: the box was replaced", w)
            if isinstance(value(r), (Payload, CoordPayload)):
                raise Violation(f"{w}: doubly boxed value {value(r)!r}")
            got = ("value", value(r))
            if isinstance(a, CoordPayload):
                eq(a.coord, 5, f"{w}: coordinate")
        else:
            require(same(value(a), va), "{}: failed but changed the box", w)
        if not sim(got, want):
            raise Violation(f"{w}: got {got!r}, expected {want!r}")
        if not same(value(b), vb):
            raise Violation(f"{w}: the right operand changed to {b!r}")
        rec.step()
        rec.ok()
        rec.outcome((o, got))
    rec.state(case)


def chk_hist(case, rec):
    """histories of in-place operations; each box compared with its value"""
    kinds, ops = case
    vals = [3, 5]
    objs = [wrap(k, v) for k, v in zip(kinds, vals)]
    boxes = [x.payload if isinstance(x, CoordPayload) else x for x in objs]
    for o, tgt, src in ops:
        if src in (0, 1):
            sv, so = vals[src], objs[src]
        else:
            sv = so = src
        x = objs[tgt]
        if o == "<<=":
            vals[tgt] = sv
            x <<= so
        else:
            x = INP[o](x, so)
            vals[tgt] = IBIN[o](vals[tgt], sv)
        require(x is objs[tgt], "{}: the object was replaced", ops)
        for i in range(2):
            b = objs[i].payload if isinstance(objs[i], CoordPayload) \
                else objs[i]
            require(b is boxes[i], "{}: the box was replaced", ops)
            g = value(objs[i])
            if g != vals[i] or type(g) is not type(vals[i]):
                raise Violation(f"{ops!r}: operand {i} is {g!r}, "
                                f"expected {vals[i]!r}")
        rec.step()
    rec.ok()
    rec.state((kinds, tuple(vals), ops[-1]))


def chk_self(case, rec):
    """x op x, with the same box on both sides"""
    o, k, v = case
    a = wrap(k, v)
    want = outcome(BIN[o], v, v)
    got = outcome(lambda: value(BIN[o](a, a)))
    if not sim(got, want):
        raise Violation(f"{k}({v!r}) {o} itself: {got!r}, expected {want!r}")
    io = o + "="
    if io in INP:
        got = outcome(lambda: value(INP[io](a, a)))
        if not sim(got, want):
            raise Violation(f"{k}({v!r}) {io} itself: {got!r}, "
                            f"expected {want!r}")
    rec.step(2)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- fibers

def mk(spec, shape, kind, default):
    depth = len(shape)
    if kind == "fiber":
        return M.mk_fiber(spec, depth, default, shape)
    t = M.mk_tensor(spec, depth, shape=shape, default=default,
                    fmts="U" * depth if kind == "tensorU" else None)
    return t.getRoot()


def content(f, default):
    return M.code_content(f, default)


def points(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def settled(f, w, depth, owned):
    M.check_fiber(f, w, depth)


def large_pool(shape, base, default):
    lin = M.linval(shape)
    v = lin if base == 1 else lambda p: -lin(p) if lin(p) % 2 else lin(p) + 1
    if len(shape) == 1:
        return M.wide(shape[0], v, default) + [()]
    return M.lattice(shape, v)[::5] + [()]


def chk_ff_large(case, rec):
    chk_ff(case, rec, large_pool(case[0], 20, case[4])[::1 if len(case[0]) > 1
                                                       else 3])


def chk_ff(case, rec, sbs=None):
    """fiber with fiber"""
    shape, ka, kb, da, db, sa = case
    depth = len(shape)
    ca = M.content(sa, depth, da)
    for sb in sbs or pool(shape, 20, db):
        cb = M.content(sb, depth, db)
        for o in ("+", "*"):
            w = (f"{sa!r}({ka},default {da}) {o} {sb!r}({kb},default {db})")
            a, b = mk(sa, shape, ka, da), mk(sb, shape, kb, db)
            r = a + b if o == "+" else a * b
            rec.step()
            M.check_fiber(r, w, depth if M.raw(r) else None)
            got = content(r, da)
            if o == "*":
                # product over the intersection; every other point is empty
                want = {p: ca[p] * cb[p] for p in ca if p in cb}
            elif da == 0 and db == 0:
                want = {p: ca.get(p, 0) + cb.get(p, 0)
                        for p in set(ca) | set(cb)}
            else:
                want = None
            if want is not None:
                want = {p: v for p, v in want.items() if v != da}
                eq(got, want, w)
                rec.ok()
            if M.raw(a) != sa or M.raw(b) != sb:
                raise Violation(f"{w}: an operand changed")
            # the in-place form
            act = a.getActive()
            c = a
            if o == "+":
                c += b
            else:
                c *= b
            rec.step()
            w = w.replace(f" {o} ", f" {o}= ", 1)
            require(c is a, "{}: not the same fiber", w)
            M.check_fiber(c, w, depth if M.raw(c) else None)
            eq(content(c, da), got, w)
            if M.raw(b) != sb:
                raise Violation(f"{w}: the right operand changed")
            eq(c.getActive(), act, f"{w}: active range")
            if ka != "fiber":
                e = mirror(c, depth)
                if e:
                    raise Violation(f"{w}: {e}")
            rec.ok()
            rec.outcome((o, tuple(sorted(got.items()))))
    rec.state(case)


def mirror(f, depth):
    """rank lists of the owning tensor against the tree"""
    rank = f.getOwner()
    level = [f]
    for _ in range(depth):
        got = {id(x) for x in rank.getFibers()}
        if got != {id(x) for x in level} or len(rank.getFibers()) != len(got):
            return f"rank {rank.getId()} does not list the fibers of its level"
        level = [p for x in level for p in x.payloads if isinstance(p, Fiber)]
        rank = rank.getNextRank()
    return None


SC = [0, 1, -2, 3, 2.5, ("box", 4), ("box", 0)]


def chk_scalar(case, rec):
    shape, ka, da, sa = case
    depth = len(shape)
    ca = M.content(sa, depth, da)
    for s in SC:
        sv = s[1] if isinstance(s, tuple) else s
        for o in ("+", "*"):
            for left in (False, True):
                sc = Payload(s[1]) if isinstance(s, tuple) else s
                w = f"{sa!r}({ka},default {da}) {o} {s!r}, scalar " \
                    f"{'left' if left else 'right'}"
                a = mk(sa, shape, ka, da)
                if o == "+":
                    r = sc + a if left else a + sc
                    want = {p: ca.get(p, da) + sv for p in points(shape)}
                else:
                    r = sc * a if left else a * sc
                    want = {p: v * sv for p, v in ca.items()}
                rec.step()
                want = {p: v for p, v in want.items() if v != da}
                require(isinstance(r, Fiber), "{}: result is {!r}", w, r)
                M.check_fiber(r, w, depth if M.raw(r) else None)
                eq(content(r, da), want, w)
                if M.raw(a) != sa:
                    raise Violation(f"{w}: the operand changed")
                rec.ok()
                if left:
                    continue
                act = a.getActive()
                c = a
                if o == "+":
                    c += sc
                else:
                    c *= sc
                rec.step()
                w = w.replace(f" {o} ", f" {o}= ", 1)
                require(c is a, "{}: not the same fiber", w)
                M.check_fiber(c, w, depth if M.raw(c) else None)
                eq(content(c, da), want, w)
                eq(c.getActive(), act, f"{w}: active range")
                if ka != "fiber":
                    e = mirror(c, depth)
                    if e:
                        raise Violation(f"{w}: {e}")
                if isinstance(s, tuple):
                    eq(sc.value, s[1], f"{w}: scalar box")
                rec.ok()
    rec.state(case)


def chk_chain(case, rec):
    """short programs of in-place fiber operations against dense evaluation"""
    shape, sa, prog = case
    depth = len(shape)
    a = mk(sa, shape, "tensor", 0)
    cur = M.content(sa, depth)
    for o, arg in prog:
        if isinstance(arg, tuple):
            b = mk(arg, shape, "fiber", 0)
            cb = M.content(arg, depth)
            if o == "+":
                a += b
                cur = {p: cur.get(p, 0) + cb.get(p, 0) for p in points(shape)}
            else:
                a *= b
                cur = {p: cur.get(p, 0) * cb.get(p, 0) for p in points(shape)}
        elif o == "+":
            a += arg
            cur = {p: cur.get(p, 0) + arg for p in points(shape)}
        else:
            a *= arg
            cur = {p: v * arg for p, v in cur.items()}
        cur = {p: v for p, v in cur.items() if v}
        eq(content(a, 0), cur, f"{sa!r} after {prog!r}")
        M.check_fiber(a, f"{sa!r} after {prog!r}", None)
        e = mirror(a, depth)
        if e:
            raise Violation(f"{sa!r} after {prog!r}: {e}")
        rec.step()
    rec.ok()
    rec.state((sa, prog))


_pool = {}


def pool(shape, base, default):
    k = (shape, base, default)
    if k not in _pool:
        if base == 20:
            # second operand: the negatives too, so that sums cancel
            lin = M.linval(shape)
            _pool[k] = M.specs(shape, lambda p: -lin(p) if lin(p) % 2
                               else lin(p) + 1, default)
        else:
            _pool[k] = M.specs(shape, M.linval(shape), default)
    return _pool[k]


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"
    KINDS = ["box", "cp", "cpbox", "raw"]

    def bins():
        for o in BIN:
            for ka in KINDS:
                for kb in KINDS:
                    if ka == kb == "raw":
                        continue
                    for va in VALS:
                        yield (o, ka, kb, va)

    def inps():
        for o in list(INP) + ["<<="]:
            for ka in KINDS[:3]:
                for kb in KINDS:
                    for va in VALS:
                        yield (o, ka, kb, va)

    def hist():
        n = 3 if q else 4
        alpha = [(o, t, s) for o in ("+=", "-=", "*=", "<<=")
                 for t in (0, 1) for s in (0, 1, 4)]
        if not q:
            alpha = alpha[:6] + alpha[12:]
        for ks in itertools.product(["box", "cp"], repeat=2):
            for ops in itertools.product(alpha, repeat=n):
                yield (ks, ops)

    def selfs():
        for o in BIN:
            for k in KINDS[:3]:
                for v in VALS:
                    yield (o, k, v)

    def ff():
        for shape in ((3,), (2, 2), (1, 2), (2, 1, 1), (2, 1, 2)) + \
                (() if q else ((4,), (1, 2, 2), (2, 3))):
            kinds = [("fiber", "fiber"), ("tensor", "fiber"),
                     ("tensor", "tensor"), ("tensorU", "tensor"),
                     ("fiber", "tensorU")]
            if shape == (2, 3):
                kinds = [("tensor", "fiber")]
            if shape == (2, 2) and q:
                kinds = [("fiber", "tensor"), ("tensor", "fiber")]
            for ka, kb in kinds:
                for da, db in ((0, 0), (3, 3), (3, 0), (0, 3)):
                    if (da or db) and "tensorU" in (ka, kb):
                        # the coordinates an uncompressed rank presents
                        # take part in the sum
                        continue
                    if (da or db) and len(shape) > 2 and ka + kb != "tensor" * 2:
                        # an empty unowned fiber does not know the default
                        # two ranks below
                        continue
                    if (da or db) and shape not in ((3,), (1, 2), (2, 1, 1)):
                        continue
                    for s in pool(shape, 1, da):
                        if da and ka == "fiber" and len(shape) == 2 and not s:
                            # nor does one without sub-fibers
                            continue
                        yield (shape, ka, kb, da, db, s)

    def sc():
        for shape in ((3,), (2, 2), (2, 1, 2)) + (() if q else ((2, 3),)):
            for ka in ("fiber", "tensor", "tensorU"):
                if ka == "fiber" and len(shape) > 1:
                    continue
                for d in (0, 3):
                    for s in pool(shape, 1, d):
                        yield (shape, ka, d, s)

    def ff_large():
        for shape in ((70,), (130,), (12, 9), (70, 2)) + \
                (() if q else ((600,), (9, 40), (6, 5, 7))):
            for ka, kb in (("fiber", "fiber"), ("tensor", "fiber"),
                           ("tensor", "tensor"), ("tensorU", "tensor")):
                for d in (0, 3):
                    if d and (ka == "tensorU" or len(shape) > 1):
                        continue
                    for s in large_pool(shape, 1, d):
                        yield (shape, ka, kb, d, d, s)

    def sc_large():
        for shape in ((70,), (130,), (12, 9), (70, 2)):
            for ka in ("tensor", "tensorU"):
                for d in (0, 3):
                    for s in large_pool(shape, 1, d):
                        yield (shape, ka, d, s)

    def chain():
        for shape in ((3,), (2, 2)):
            small = [s for s in M.specs(shape, M.linval(shape),
                                        explicit=False, empties=False)]
            args = [("+", 1), ("*", 0), ("*", 2), ("+", -1)] + \
                [(o, s) for o in "+*" for s in small[1::5 if q else 2]]
            for s in small:
                for prog in itertools.product(args, repeat=2):
                    yield (shape, s, prog)
    return [
        Family("binary", bins, chk_bin, f"13 operators x 15 operand kinds x "
               f"{len(VALS)}^2 values"),
        Family("inplace", inps, chk_inp, f"7 in-place operators x 12 operand "
               f"kinds x {len(VALS)}^2 values"),
        Family("history", hist, chk_hist, "all in-place histories of length "
               + ("3" if q else "4") + " over two objects and a scalar"),
        Family("self", selfs, chk_self, "the same object on both sides"),
        Family("fiber-fiber", ff, chk_ff, "all pairs of trees: (3,), (2,2), "
               "(1,2), (2,1,1), (2,1,2)" + ("" if q else ", (4,), (1,2,2), (2,3)")
               + "; owned/unowned, C/U, defaults 0/3"),
        Family("fiber-scalar", sc, chk_scalar, "all trees (3,), (2,2), (2,1,2)"
               " x 7 scalars, either side, in place"),
        Family("large-fibers", ff_large, chk_ff_large, "fibers of 70 and 130 "
               "coordinates, 12x9 and 70x2 (thorough: to 600)"),
        Family("large-scalars", sc_large, chk_scalar, "the same with scalars"),
        Family("programs", chain, chk_chain, "all programs of two in-place "
               "fiber operations"),
    ]
