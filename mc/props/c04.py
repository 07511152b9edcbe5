"""C04: co-iteration operators compute exactly their coordinate-set tables."""

import itertools

from fibertree import Fiber, Payload, Tensor

from ..core import Family, Violation, eq, require
from .. import model as M

RULE = ("every ordered tuple of operand fibers over the bounded shape, each "
        "coordinate absent / explicit default (or empty sub-fiber) / value; "
        "every operator; compared with Python set algebra on the raw operand")
ASSUMPTIONS = ["operands are ordered and unique (the property's domain)"]

OPS = ("&", "|", "^", "-")


def apply(op, a, b):
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    return a - b


class Operand:
    """One live operand plus the model's view of it"""

    def __init__(self, spec, depth, shape, default=0, fmt="C", active=None,
                 owned=False, rank="M"):
        self.spec, self.depth, self.default, self.fmt = spec, depth, default, fmt
        self.tensor = None
        if owned:
            ranks = [rank] + ["N", "K"][:depth - 1]
            self.tensor = M.mk_tensor(spec, depth, shape, default, ranks)
            if fmt != "C":
                self.tensor.setFormat(rank, fmt)
            self.f = self.tensor.getRoot()
        else:
            self.f = M.mk_fiber(spec, depth, default, shape)
            if fmt != "C":
                self.f.getRankAttrs().setFormat(fmt)
            self.f.getRankAttrs().setId(rank)
        if active is not None:
            self.f.setActive(active)
        rng = active if active is not None else (0, shape[0])
        if fmt == "U":
            self.present = list(range(*rng))
        else:
            self.present = [c for c, _ in M.present(spec, depth, default)]
        self.stored = dict(zip(self.f.coords, self.f.payloads))
        self.before = self.snap()

    def snap(self):
        return M.snap(self.tensor if self.tensor is not None else self.f)

    def unchanged(self, what):
        require(self.snap() == self.before,
                "{}: operand (or its tensor) was modified: {} -> {}",
                what, self.spec, M.raw(self.f))
        if self.tensor is not None:
            r = M.mirror_error(self.tensor)
            require(r is None, "{}: operand tensor: {}", what, r)

    def is_default(self, p):
        if self.depth > 1:
            return isinstance(p, Fiber) and len(p.coords) == 0 \
                and not any(p is q for q in self.stored.values())
        return isinstance(p, Payload) and not isinstance(p.value, Payload) \
            and p.value == self.default \
            and type(p.value) is type(self.default)

    def check_payload(self, p, c, what, stored_ok=True):
        if c in self.present:
            if c in self.stored:
                require(p is self.stored[c],
                        "{}: payload at {} is not the operand's stored one "
                        "({!r})", what, c, p)
            else:
                require(self.is_default(p),
                        "{}: payload at absent coordinate {} of an "
                        "uncompressed rank is {!r}", what, c, p)
                scribble(p)
        else:
            ok = self.is_default(p)
            if not ok and stored_ok and c in self.stored:
                ok = p is self.stored[c]
            require(ok, "{}: payload of the absent side at {} is {!r}, "
                    "expected a default", what, c, p)
            if not any(p is q for q in self.stored.values()):
                scribble(p)


def scribble(p):
    """A loop body may update the default it is given: that is seen neither
    in the operand nor in the default given at any other coordinate"""
    if isinstance(p, Fiber):
        p.getPayloadRef(0)
    else:
        p += 1


def expected(op, a, b):
    A, B = set(a.present), set(b.present)
    if op == "&":
        return sorted(A & B)
    if op == "|":
        return sorted(A | B)
    if op == "^":
        return sorted(A ^ B)
    return sorted(A - B)


def mask(c, *ops):
    return "".join(chr(ord("A") + i) for i, o in enumerate(ops)
                   if c in o.present)


def unpack(p):
    if isinstance(p, Payload):
        p = p.value
    return p


def check_pair(op, a, b, rec):
    what = f"{a.spec}{'U' if a.fmt == 'U' else ''} {op} " \
           f"{b.spec}{'U' if b.fmt == 'U' else ''}"
    lazy = apply(op, a.f, b.f)
    want = expected(op, a, b)
    for rep in range(2):
        got = []
        for cp in lazy:
            c, p = cp
            got.append(c)
            if op == "-":
                a.check_payload(p, c, what)
                continue
            t = unpack(p)
            require(isinstance(t, tuple) and len(t) == (2 if op == "&" else 3),
                    "{}: payload at {} is {!r}", what, c, p)
            if op != "&":
                eq(t[0], mask(c, a, b), f"{what}: mask at {c}")
                t = t[1:]
            a.check_payload(t[0], c, what, False)
            b.check_payload(t[1], c, what, False)
        eq(got, want, f"{what}: coordinates (pass {rep})")
        rec.step()
    a.unchanged(what)
    b.unchanged(what)
    rec.ok()
    rec.outcome((op, tuple(want)))


# ---------------------------------------------------------------- families

def leafval(side):
    return lambda pt: (side + 1) * 10 + pt[0]


def sub_specs(shape0, side, default=0):
    """Interior fibers: each coordinate absent, {} , {0: default}, {1: v} or
    {0: default, 1: v}"""
    base = (side + 1) * 10
    opts = []
    for c in range(shape0):
        opts.append([None, (c, ()), (c, ((0, default),)),
                     (c, ((1, base + c),)),
                     (c, ((0, default), (1, base + c)))])
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*opts)]


def pair1_gen(S, fmts, defaults, actives, owned):
    def gen():
        for da, db in defaults:
            sa = M.specs((S,), leafval(0) if da == 0 else
                         (lambda pt: pt[0]), da)
            sb = M.specs((S,), leafval(1) if db == 0 else
                         (lambda pt: pt[0]), db)
            for fa, fb in fmts:
                for aa in (actives if fa == "U" else [None]):
                    for ab in (actives if fb == "U" else [None]):
                        for o in owned:
                            for x in sa:
                                for y in sb:
                                    yield (S, x, da, fa, aa, y, db, fb, ab, o)
    return gen


def long_gen(N):
    def gen():
        for fa, fb, aa, ab in (("C", "C", None, None), ("U", "C", (3, 11), None),
                               ("C", "U", None, (5, 14))):
            for o in (0, 3):
                for x in M.wide(N, leafval(0)):
                    for y in M.wide(N, leafval(1)):
                        yield (N, x, 0, fa, aa, y, 0, fb, ab, o)
    return gen


def large_gen(N):
    def gen():
        for fa, fb, aa, ab in (("C", "C", None, None),
                               ("U", "C", (3, N - 9), None),
                               ("C", "U", None, (N // 2, N + 70))):
            for x in M.wide(N, leafval(0)):
                for y in M.wide(N, leafval(1)):
                    yield (N, x, 0, fa, aa, y, 0, fb, ab, 3)
    return gen


def pair1_check(case, rec):
    S, x, da, fa, aa, y, db, fb, ab, o = case
    a = Operand(x, 1, (S,), da, fa, aa, o & 1)
    b = Operand(y, 1, (S,), db, fb, ab, o & 2)
    rec.state(case)
    for op in OPS:
        check_pair(op, a, b, rec)


def pair2_gen(S, fmts, owned, d=0):
    def gen():
        sa, sb = sub_specs(S, 0, d), sub_specs(S, 1, d)
        for fa, fb in fmts:
            for o in owned:
                for x in sa:
                    for y in sb:
                        yield (S, x, fa, y, fb, o, d)
    return gen


def pair2_check(case, rec):
    S, x, fa, y, fb, o, d0 = case
    a = Operand(x, 2, (S, 2), d0, fa, None, o & 1)
    b = Operand(y, 2, (S, 2), d0, fb, None, o & 2)
    rec.state(case)
    for op in OPS:
        check_pair(op, a, b, rec)
    # two levels deep: the delivered sub-fibers (stored or default) can
    # themselves be co-iterated
    for op in ("&", "|", "^"):
        got = {}
        for c, p in apply(op, a.f, b.f):
            t = unpack(p)
            pa, pb = t[-2], t[-1]
            for d, q in apply(op, pa, pb):
                u = unpack(q)
                got[(c, d)] = (unpack(u[-2]), unpack(u[-1]))
            rec.step()
        A, B = M.content(x, 2, d0), M.content(y, 2, d0)
        keys = {"&": set(A) & set(B), "|": set(A) | set(B),
                "^": set(A) ^ set(B)}[op]
        if op == "^":
            # nested xor only descends where exactly one side is non-empty
            # at the upper level
            ua, ub = {k[0] for k in A}, {k[0] for k in B}
            keys = {k for k in keys if (k[0] in ua) != (k[0] in ub)}
        if fa == "U" or fb == "U":
            if op == "^":
                continue
        eq(got, {k: (A.get(k, d0), B.get(k, d0)) for k in keys},
           f"{x} {op} {y}: two-level co-iteration")
        a.unchanged("two-level " + op)
        b.unchanged("two-level " + op)
        rec.ok()


def nary_gen(S, n, kinds, owned, fmts=("C",), d=0):
    def gen():
        per = []
        for side in range(n):
            if kinds == "leaf":
                per.append(M.specs((S,), leafval(side)))
            else:
                base = (side + 1) * 10
                opts = [[None, (c, ()), (c, ((0, d),)), (c, ((1, base + c),))]
                        for c in range(S)]
                per.append([tuple(v for v in combo if v is not None)
                            for combo in itertools.product(*opts)])
        for o in owned:
            for fm in fmts:
                for combo in itertools.product(*per):
                    yield (S, kinds, combo, o, fm, d)
    return gen


def nary_check(case, rec):
    S, kinds, combo, o, fm, d0 = case
    depth = 1 if kinds == "leaf" else 2
    fm = fm * len(combo) if len(fm) == 1 else fm
    ops = [Operand(x, depth, (S, 2)[:depth], d0, fm[i], None, o)
           for i, x in enumerate(combo)]
    rec.state(case)
    sets = [set(x.present) for x in ops]
    fibers = [x.f for x in ops]
    what = f"intersection{combo}"

    for rep in range(2):
        got = []
        for c, p in Fiber.intersection(*fibers):
            t = unpack(p)
            eq(len(t), len(ops), f"{what}: tuple width at {c}")
            for x, q in zip(ops, t):
                x.check_payload(q, c, what, False)
            got.append(c)
        rec.step()
        eq(got, sorted(set.intersection(*sets)), what)

    what = f"union{combo}"
    for rep in range(2):
        got = []
        for c, p in Fiber.union(*fibers):
            t = unpack(p)
            eq(len(t), len(ops) + 1, f"{what}: tuple width at {c}")
            eq(unpack(t[0]), mask(c, *ops), f"{what}: mask at {c}")
            for x, q in zip(ops, t[1:]):
                x.check_payload(q, c, what, False)
            got.append(c)
        rec.step()
        eq(got, sorted(set.union(*sets)), what)

    if depth == 2:
        two = {}
        for c, p in Fiber.union(*fibers):
            for k, q in Fiber.union(*unpack(p)[1:]):
                two[(c, k)] = tuple(unpack(v) for v in unpack(q)[1:])
        rec.step()
        cont = [M.content(x.spec, 2, d0) for x in ops]
        eq(two, {k: tuple(m.get(k, d0) for m in cont)
                 for m0 in cont for k in m0}, "two-level " + what)

    check_lf(ops, rec)
    for x in ops:
        x.unchanged(what)
    rec.ok(3)
    rec.outcome(tuple(got))


def check_lf(ops, rec):
    what = f"leader-follower{tuple(x.spec for x in ops)}"
    lazy = Fiber.intersection(*[x.f for x in ops], style="leader-follower")
    for rep in range(2):
        got = []
        for c, p in lazy:
            t = unpack(p)
            eq(len(t), len(ops), f"{what}: tuple width at {c}")
            for x, q in zip(ops, t):
                x.check_payload(q, c, what)
            got.append(c)
        rec.step()
        eq(got, ops[0].present, f"{what}: coordinates (pass {rep})")


def lf_gen(S):
    def gen():
        for x in M.specs((S,), leafval(0)):
            for y in M.specs((S,), leafval(1)):
                for pos in range(max(1, len(y))):
                    for q in range(-1, S):
                        yield (S, x, y, pos, q)
    return gen


def lf_check(case, rec):
    """the follower was used before: its saved position is anywhere"""
    S, x, y, pos, q = case
    a = Operand(x, 1, (S,))
    b = Operand(y, 1, (S,))
    b.f.setSavedPos(pos)
    if q >= 0 and y and pos < len(y) and y[pos][0] <= q:
        b.f.getPayload(q, start_pos=pos)
        rec.step()
    rec.state((x, y, b.f.getSavedPos()))
    check_lf([a, b], rec)
    a.unchanged("leader-follower")
    b.unchanged("leader-follower")
    rec.ok()


def mixed_gen(dims_long, dims_short):
    """tuple coordinates against a shorter tuple (or an integer)"""
    def coords(dims):
        cs = list(itertools.product(*[range(d) for d in dims]))
        return [c if len(c) > 1 else c[0] for c in cs]

    def fill(cs, base):
        opts = [[None, (c, 0), (c, base + i)] for i, c in enumerate(cs)]
        return [tuple(v for v in combo if v is not None)
                for combo in itertools.product(*opts)]

    def gen():
        for x in fill(coords(dims_long), 10):
            for y in fill(coords(dims_short), 50):
                for swap in (False, True):
                    yield (dims_long, dims_short, x, y, swap)
    return gen


def mixed_check(case, rec):
    dl, ds, x, y, swap = case
    rec.state(case)
    long = Fiber([c for c, _ in x], [v for _, v in x], shape=dl)
    short = Fiber([c for c, _ in y], [v for _, v in y],
                  shape=ds if len(ds) > 1 else ds[0])
    sl, ss = M.snap(long), M.snap(short)
    n = len(ds)

    def prefix(c):
        return c[:n] if n > 1 else c[0]

    pl = dict(zip(long.coords, long.payloads))
    ps = dict(zip(short.coords, short.payloads))
    have = {c for c, v in y if v != 0}
    want = [c for c, v in x if v != 0 and prefix(c) in have]
    for rep in range(2):
        got = []
        for c, p in (short & long if swap else long & short):
            t = unpack(p)
            if swap:
                t = (t[1], t[0])
            got.append(c)
            require(c in pl and t[0] is pl[c], "payload of long side at {}", c)
            require(t[1] is ps[prefix(c)], "payload of short side at {}", c)
        rec.step()
        eq(got, want, f"mixed arity {x} & {y} (swap={swap})")
    require(M.snap(long) == sl and M.snap(short) == ss,
            "mixed arity: an operand was modified")
    rec.ok()


def tuple_gen(dims):
    def gen():
        cs = list(itertools.product(*[range(d) for d in dims]))
        def fill(base):
            opts = [[None, (c, 0), (c, base + i)] for i, c in enumerate(cs)]
            return [tuple(v for v in combo if v is not None)
                    for combo in itertools.product(*opts)]
        for x in fill(10):
            for y in fill(50):
                yield (dims, x, y)
    return gen


def tuple_check(case, rec):
    dims, x, y = case
    rec.state(case)
    a = Operand.__new__(Operand)
    b = Operand.__new__(Operand)
    for o, s in ((a, x), (b, y)):
        o.spec, o.depth, o.default, o.fmt, o.tensor = s, 1, 0, "C", None
        o.f = Fiber([c for c, _ in s], [v for _, v in s], shape=dims)
        o.present = [c for c, v in s if v != 0]
        o.stored = dict(zip(o.f.coords, o.f.payloads))
        o.before = o.snap()
    for op in OPS:
        check_pair(op, a, b, rec)


def nest_gen(S, assoc=(0, 1)):
    def gen():
        for combo in itertools.product(*[M.specs((S,), leafval(i))
                                         for i in range(3)]):
            yield (S, combo)
    return gen


SETS = {"&": set.__and__, "|": set.__or__, "^": set.__xor__,
        "-": set.__sub__}


def n_coords(e):
    """e: an Operand or (op, left, right)"""
    if isinstance(e, Operand):
        return set(e.present)
    return SETS[e[0]](n_coords(e[1]), n_coords(e[2]))


def n_lazy(e):
    return e.f if isinstance(e, Operand) else \
        apply(e[0], n_lazy(e[1]), n_lazy(e[2]))


def n_text(e):
    return repr(e.spec) if isinstance(e, Operand) else \
        f"({n_text(e[1])} {e[0]} {n_text(e[2])})"


def n_check(e, p, c, what):
    """the payload p that expression e delivers at coordinate c"""
    here = c in n_coords(e)
    if isinstance(e, Operand):
        e.check_payload(p, c, what, False)
        return
    op, l, r = e
    if op == "-":
        if here:
            n_check(l, p, c, what)
        elif isinstance(l, Operand):
            require(l.is_default(p), "{}: default of {} at {} is {!r}", what,
                    n_text(e), c, p)
        return
    if op == "&" and not here:
        return          # the default of an intersection is not prescribed
    t = unpack(p)
    require(isinstance(t, tuple) and len(t) == (2 if op == "&" else 3),
            "{}: payload of {} at {} is {!r}", what, n_text(e), c, p)
    if op != "&":
        m = "".join(x for x, side in (("A", l), ("B", r))
                    if c in n_coords(side)) if here else ""
        eq(unpack(t[0]), m, f"{what}: mask of {n_text(e)} at {c}")
        t = t[1:]
        if not here:
            # nothing is delivered: the default of either side
            for side, q in zip((l, r), t):
                if isinstance(side, Operand):
                    require(side.is_default(q), "{}: default of {} at {} is "
                            "{!r}", what, n_text(side), c, q)
            return
    for side, q in zip((l, r), t):
        n_check(side, q, c, what)


def nest_check(case, rec):
    """(a op1 b) op2 c and a op1 (b op2 c): lazy operands"""
    S, combo = case
    ops = [Operand(x, 1, (S,)) for x in combo]
    rec.state(case)
    a, b, c = ops
    for o1 in OPS:
        for o2 in OPS:
            for e in ((o2, (o1, a, b), c), (o1, a, (o2, b, c)),
                      (o2, (o1, a, b), a), (o1, a, (o2, a, b)),
                      (o2, (o1, a, b), (o1, c, a)), (o1, a, a)):
                what = n_text(e)
                got = []
                for k, p in n_lazy(e):
                    got.append(k)
                    n_check(e, p, k, what)
                eq(got, sorted(n_coords(e)), what)
                rec.step()
    for o in ops:
        o.unchanged("nested operators")
    rec.ok()


def nary_lazy_gen(S):
    def gen():
        pools = [M.specs((S,), leafval(i)) for i in range(4)]
        thin = [p[i::(1, 2, 2, 3)[i]] for i, p in enumerate(pools)]
        for op in OPS + ("tuple",):
            for pos in range(3):
                for combo in itertools.product(*thin):
                    yield (S, op, pos, combo)
    return gen


def nary_lazy_check(case, rec):
    """three operands, one of them a co-iteration itself, or a fiber whose
    values are tuples"""
    S, op, pos, combo = case
    rec.state(case)
    ops = [Operand(x, 1, (S,)) for x in combo]
    exprs = list(ops[:3])
    if op == "tuple":
        for k, q in list(zip(exprs[pos].f.coords, exprs[pos].f.payloads)):
            if q.value != 0:
                q <<= (q.value, q.value + 1)
        exprs[pos].before = exprs[pos].snap()
    else:
        exprs[pos] = (op, ops[pos], ops[3])
    fibers = [n_lazy(e) for e in exprs]
    sets = [n_coords(e) for e in exprs]
    text = ", ".join(n_text(e) for e in exprs)

    what = f"intersection({text})" + " tuple values" * (op == "tuple")
    got = []
    for c, p in Fiber.intersection(*fibers):
        t = unpack(p)
        eq(len(t), 3, f"{what}: tuple width at {c}")
        for e, q in zip(exprs, t):
            n_check(e, q, c, what)
        got.append(c)
    eq(got, sorted(set.intersection(*sets)), what)

    what = f"union({text})" + " tuple values" * (op == "tuple")
    got = []
    for c, p in Fiber.union(*fibers):
        t = unpack(p)
        eq(len(t), 4, f"{what}: tuple width at {c}")
        eq(unpack(t[0]), "".join("ABC"[i] for i in range(3) if c in sets[i]),
           f"{what}: mask at {c}")
        for e, q in zip(exprs, t[1:]):
            n_check(e, q, c, what)
        got.append(c)
    eq(got, sorted(set.union(*sets)), what)

    if op == "tuple" or pos == 0:
        what = f"leader-follower({text})"
        got = []
        for c, p in Fiber.intersection(*fibers, style="leader-follower"):
            t = unpack(p)
            eq(len(t), 3, f"{what}: tuple width at {c}")
            for e, q in zip(exprs, t):
                if e is exprs[0] or c in n_coords(e):
                    n_check(e, q, c, what)
            got.append(c)
        eq(got, sorted(sets[0]), what)
    for o in ops:
        o.unchanged(what)
    rec.step(3)
    rec.ok(3)


def update_gen(S):
    def gen():
        for x in M.specs((S,), leafval(0)):
            for y in M.specs((S,), leafval(1)):
                yield (S, x, y)
    return gen


def update_check(case, rec):
    """updates through delivered payloads reach the operands; writes to the
    delivered defaults reach nothing"""
    S, x, y = case
    rec.state(case)
    for op in OPS:
        a = Operand(x, 1, (S,), 0, "C", None, True)
        b = Operand(y, 1, (S,), 0, "C", None, True)
        da, db = dict(x), dict(y)
        for c, p in apply(op, a.f, b.f):
            if op == "-":
                ts = (p, None)
            else:
                t = unpack(p)
                ts = t[-2:]
            for t, d, o in zip(ts, (da, db), (a, b)):
                if t is None:
                    continue
                t += 100
                if c in o.present:
                    d[c] += 100
        rec.step()
        eq(M.raw(a.f), tuple(sorted(da.items())), f"{op}: left after update")
        eq(M.raw(b.f), tuple(sorted(db.items())), f"{op}: right after update")
        rec.ok()


def families(tier):
    th = tier == "thorough"
    S = 5 if th else 4
    fams = [
        Family("pair", pair1_gen(S, [("C", "C")], [(0, 0)], [None], [0]),
               pair1_check, f"depth 1, shape {S}, all pairs"),
        Family("pair-owned", pair1_gen(3, [("C", "C")], [(0, 0)], [None],
                                       [1, 2, 3]),
               pair1_check, "depth 1, shape 3, tensors"),
        Family("pair-default", pair1_gen(3, [("C", "C")],
                                         [(7, 0), (0, 7), (7, 7), (-1.5, 7)],
                                         [None], [0, 3]),
               pair1_check, "non-zero and differing defaults"),
        Family("pair-U", pair1_gen(4 if th else 3,
                                   [("U", "C"), ("C", "U"), ("U", "U")],
                                   [(0, 0), (7, 7)] if th else [(0, 0)],
                                   [None, (0, 2), (1, 3)], [0, 3]),
               pair1_check, "uncompressed ranks, active ranges"),
        Family("pair-long", long_gen(16), pair1_check,
               "all pairs of 26 long fibers over 16 coordinates"),
        Family("pair-large", large_gen(80 if not th else 150), pair1_check,
               "all pairs of 26 fibers over 80 (thorough: 150) coordinates"),
        Family("pair-fibers", pair2_gen(3, [("C", "C")],
                                        [0, 3] if not th else [0, 1, 2, 3]),
               pair2_check, "depth 2, upper shape 3, empty sub-fibers"),
        Family("pair-fibers-U", pair2_gen(2, [("U", "C"), ("C", "U"),
                                              ("U", "U")], [0, 3]),
               pair2_check, "depth 2 uncompressed upper rank"),
        Family("pair-fibers-d7", pair2_gen(2, [("C", "C"), ("U", "C")], [3], 7),
               pair2_check, "depth 2 tensors, leaf default 7"),
        Family("nary-fibers-d7", nary_gen(2, 3, "fiber", [True],
                                          ["C", "UCC", "CCU"], 7),
               nary_check, "three depth-2 tensors, leaf default 7"),
        Family("nary3", nary_gen(3, 3, "leaf", [False] if not th
                                 else [False, True]),
               nary_check, "three operands, shape 3"),
        Family("nary3-owned", nary_gen(2, 3, "leaf", [True],
                                       ["C", "U", "UCC", "CUC", "CCU"]),
               nary_check, "three tensors, formats"),
        Family("nary4", nary_gen(2, 4, "leaf", [False]),
               nary_check, "four operands, shape 2"),
        Family("nary-fibers", nary_gen(2, 3, "fiber", [False, True]),
               nary_check, "three depth-2 operands, upper shape 2"),
        Family("lf-saved", lf_gen(4 if th else 3), lf_check,
               "leader-follower, any saved position of the follower"),
        Family("mixed-2-1", mixed_gen((2, 2), (3,)), mixed_check,
               "2-tuple x int"),
        Family("mixed-3-1", mixed_gen((2, 1, 2), (2,)), mixed_check,
               "3-tuple x int"),
        Family("mixed-3-2", mixed_gen((1, 2, 2), (2, 2)) if th
               else mixed_gen((1, 2, 2), (1, 2)), mixed_check,
               "3-tuple x 2-tuple"),
        Family("tuple", tuple_gen((2, 2)), tuple_check, "2-tuple coordinates"),
        Family("nested-ops", nest_gen(3 if th else 2), nest_check,
               "lazy operands, all operator pairs, the same fiber "
               "twice; coordinates, masks and payloads"),
        Family("nary-lazy", nary_lazy_gen(3 if th else 2), nary_lazy_check,
               "three operands, one of them lazy (every operator) or holding "
               "tuple values"),
        Family("update", update_gen(4 if th else 3), update_check,
               "writes through delivered payloads"),
    ]
    return fams
