"""C16 - traces are well-formed: one sorted, correctly addressed row per access."""

import itertools

from fibertree import Fiber, Metrics, Payload

from .. import model as M
from .. import tmodel as R
from .. import trace as T
from ..core import Rec, Family, Violation, eq, require
from . import c06, c15

RULE = ("Every loop nest of the bound (C06 programs of depth 1-4 and 25 loop "
        "idioms, on operand trees with explicit defaults and empty sub-fibers, "
        "compressed and uncompressed) is run with every trace type of every "
        "rank registered. A pure model of the loop nest (sorted lists, "
        "generators that log each access) produces the rows expected in each "
        "trace: coordinates, order, number and position must agree; the "
        "header, the order of the iteration stamps (strict for iter) and the "
        "stamps of the enclosing loop bodies (read with Metrics.getIter inside "
        "each body) are checked too. Flush thresholds 2.. and 1000, files and "
        "consumable traces, consumed at the end or after every loop body, "
        "must deliver the same rows.")
ASSUMPTIONS = [
    "the position in an uncompressed fiber is its coordinate; where the "
    "library addresses one by random access, the stored index is accepted too",
    "the position of a coordinate that is not stored (random access that "
    "finds nothing) is not fixed by the property",
    "an access of an inserting populate is: the source element, each element "
    "passed over while searching, the element read or written by a body, and "
    "each element moved into place at the end",
    "no rows and no header are required for a rank whose loop never began",
]


# ---------------------------------------------------------------- comparison

def compare(got, log, n, w, late=False):
    """got: (rank, type) -> (header, rows as strings)"""
    eq([r for r, _ in n.log], log.bodies, f"{w}: loop bodies in order")
    depth = {r: i for i, r in enumerate(log.order)}
    for r, target in log.matched.items():
        if target in depth:
            depth[r] = depth[target]
    for (rank, type_), (header, rows) in got.items():
        want = log.rows.get((rank, type_), [])
        t = f"{w}: trace {type_} of {rank}"
        if rank not in depth:
            require(not rows, "{}: {} rows of a rank that is never iterated",
                    t, len(rows))
            continue
        d = depth[rank] + 1
        loops = log.order[:d]
        eq(header, [r + "_pos" for r in loops] + loops + ["fiber_pos"],
           f"{t}: header")
        table = []
        for row in rows:
            require(len(row) == 2 * d + 1, "{}: row {} has {} columns", t, row,
                    len(row))
            try:
                table.append([int(x) for x in row])
            except ValueError:
                raise Violation(f"{t}: row {row} is not made of integers")
        coords = [tuple(x[d:2 * d]) for x in table]
        own = [s for r, s in n.log if r == rank]
        if late:
            # everything after the first body of the rank has begun
            own = own[1:]
            if type_ == "iter":
                want = want[1:]
            elif len(table) < len(want):
                want = want[len(want) - len(table):]
        eq(coords, [x.coords for x in want], f"{t}: coordinates of the rows")
        prev = None
        for k, (x, exp) in enumerate(zip(table, want)):
            stamp = tuple(x[:d])
            if exp.pos is not R.ANY:
                require(x[-1] in exp.pos, "{}: row {} {} has position {}, the "
                        "element is at {}", t, k, x, x[-1],
                        " or ".join(map(str, exp.pos)))
            if prev is not None:
                require(prev <= stamp, "{}: stamp {} of row {} after {}", t,
                        stamp, k, prev)
                require(type_ != "iter" or prev < stamp, "{}: stamp {} of "
                        "row {} repeats", t, stamp, k)
            prev = stamp
            if exp.outer:
                body = n.log[exp.outer[-1]][1][:d - 1]
                eq(stamp[:-1], body, f"{t}: row {k} {x}: stamp of the "
                   f"enclosing loop bodies")
            if type_ == "iter":
                eq(stamp, own[k][:d], f"{t}: row {k} {x}: stamp of its loop "
                   f"body")


# ---------------------------------------------------------------- programs

def m_coiterate(log, rank, fibers, style):
    if len(fibers) == 1:
        return R.leaf(fibers[0])
    if style == "lf":
        return R.leader(log, rank, fibers)
    if style == "right":
        g = R.leaf(fibers[-1])
        for f in fibers[-2::-1]:
            g = R.both(log, rank, R.leaf(f), g)
        return g
    g = R.leaf(fibers[0])
    for f in fibers[1:]:
        g = R.both(log, rank, g, R.leaf(f))
    return g


def m_kernel(log, out, ops, order, level, cur, z, style):
    if level == len(order):
        prod = cur[0]
        for v in cur[1:]:
            prod = prod * v
        if style == "lf" and prod == 0:
            return
        z.set(z.val + prod)
        return
    r = order[level]
    rank = c06.rid(r)
    who = [i for i, op in enumerate(ops) if r[0] in op]
    co = m_coiterate(log, rank, [cur[i] for i in who], style)
    shape = "and" if style == "inter" else style
    if r[0] in out:
        for c, (ref, p) in R.loop(log, rank, R.populate(log, rank, z, co)):
            nxt = list(cur)
            for i, v in zip(who, c06.unpack(p, len(who), shape)):
                nxt[i] = v
            m_kernel(log, out, ops, order, level + 1, nxt,
                     ref.val if isinstance(ref.val, R.MF) else ref, style)
    else:
        for c, p in R.loop(log, rank, co):
            nxt = list(cur)
            for i, v in zip(who, c06.unpack(p, len(who), shape)):
                nxt[i] = v
            m_kernel(log, out, ops, order, level + 1, nxt, z, style)


class Cell:

    def __init__(self):
        self.val = 0

    def set(self, v):
        self.val = v


def m_program(case, prepared):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case
    dims = dict(dims)
    out, ops = expr
    fibers = []
    for t, op in zip(prepared, ops):
        rk = c06.ranks_for(op, order)
        fibers.append(R.mf(M.raw_t(t), len(rk), fmt,
                           tuple(dims[r[0]] for r in rk)))
    zr = c06.ranks_for(out, order)
    log = R.Log()
    z = R.mf((), len(zr)) if zr else Cell()
    m_kernel(log, out, ops, order, 0, fibers, z, style)
    return log, (R.raw(z) if zr else z.val)


class Eager(T.Count):
    """consumes every trace after each loop body"""

    def __init__(self, ranks, traces):
        super().__init__(ranks)
        self.traces = traces
        self.got = {t: [] for t in traces}

    def body(self, rank):
        super().body(rank)
        for t in self.traces:
            self.got[t] += Metrics.consumeTrace(*t)


class Late(T.Count):
    """registers the traces of a rank in the first body of its loop"""

    def __init__(self, ranks, traces):
        super().__init__(ranks)
        self.traces = traces

    def body(self, rank):
        super().body(rank)
        if self.bodies[rank] == 1:
            for r, t in self.traces:
                if r == rank:
                    Metrics.trace(r, t, consumable=True)


class Busy(T.Count):
    """every loop body also reads all the fibers, with and without a search
    start: accesses nobody traces, whose only trace is the saved position"""

    def __init__(self, ranks, trees):
        super().__init__(ranks)
        self.trees = [t for t in trees if hasattr(t, "getRoot")]

    def body(self, rank):
        super().body(rank)
        stack = [t.getRoot() for t in self.trees]
        while stack:
            f = stack.pop()
            if not isinstance(f, Fiber):
                continue
            cs, ps = f.getCoords(), f.getPayloads()
            for c in cs[:1] + cs[-1:]:
                f.getPayload(c)
                f.getPayload(c, start_pos=0)
                f.getPosition(c, start_pos=0)
            if cs and not isinstance(cs[-1], tuple):
                f.getPayload(cs[-1] + 1, start_pos=len(cs) - 1)
                f.getPosition(cs[-1] + 1)
            len(f), f.isEmpty(), f.countValues(), f.getSavedPosStats()
            if self.bodies[rank] % 2:
                f.setSavedPos(0)
            stack += ps


HOW = {"b": ", the bodies also read every fiber", "m": "", "e": ", traces consumed after every body",
       "1": ", one trace registered", "late": ", traces registered late"}


def run_modes(world, run, ranks, traces, how, w):
    """Yields (how, Count, rows) for each way of delivering the traces.

    how: "m" in memory, "e" consumed after every body, "1" each trace alone,
    "late" registered while the loop runs, or a flush threshold
    """
    for h in how:
        if h == "1":
            for t in traces:
                T.reset()
                ops = world()
                n = T.Count(ranks)
                res, _, got = T.session("c16", [t + ("m",)],
                                        lambda: run(ops, n))
                yield h, n, {t: T.rows_of(got[t])}, res
            continue
        if h == "b":
            T.reset()
            ops = world()
            n = Busy(ranks, ops)
            res, _, got = T.session("c16", [(r, t, "m") for r, t in traces],
                                    lambda: run(ops, n))
            yield h, n, {t: T.rows_of(g) for t, g in got.items()}, res
            continue
        if h == "late":
            T.reset()
            ops = world()
            n = Late(ranks, traces)

            def late():
                r = run(ops, n)
                return r, {t: T.rows_of({"m": Metrics.consumeTrace(*t)})
                           for t in traces if n.bodies.get(t[0])}
            (res, rows), _, _ = T.session("c16", [], late)
            yield h, n, rows, res
            continue
        ops = world()
        T.reset(1000 if isinstance(h, str) else h)
        if h == "e":
            n = Eager(ranks, traces)
            res, _, got = T.session("c16", [(r, t, "m") for r, t in traces],
                                    lambda: run(ops, n))
            rows = {}
            for t in traces:
                g = T.csv(n.got[t] + got[t]["m"]).splitlines()
                g = [x.split(",") for x in g]
                rows[t] = (g[0], g[1:]) if g else (None, [])
        elif h == "m":
            n = T.Count(ranks)
            res, _, got = T.session("c16", [(r, t, "m") for r, t in traces],
                                    lambda: run(ops, n))
            rows = {t: T.rows_of(g) for t, g in got.items()}
        else:
            n = T.Count(ranks)
            T.clean("c16")
            res, _, got = T.session("c16", [(r, t, "fm") for r, t in traces],
                                    lambda: run(ops, n))
            rows = {}
            for t, g in got.items():
                eq(g["f"], T.csv(g["m"]), f"{w}: file of {t} flushed every "
                   f"{h} rows, against the consumable trace")
                rows[t] = T.rows_of({"f": g["f"]})
        yield h, n, rows, res


def chk(case, rec):
    prog, types, how = case
    w0 = c15.tell(prog)
    ranks = [c06.rid(r) for r in prog[3]]
    traces = [(r, t) for r in ranks for t in types]
    log, want = m_program(prog, c15.build(prog))

    def run(ops, n):
        z = c15.mk_out(prog)
        if isinstance(n, Busy) and hasattr(z, "getRoot"):
            n.trees.append(z)
        c15.execute(prog, ops, z, n)
        return z
    try:
        for h, n, rows, z in run_modes(lambda: c15.build(prog), run, ranks,
                                       traces, how, w0):
            eq(c15.out_raw(z), want, f"{w0}: output tree")
            compare(rows, log, n, w0 + HOW.get(h, f", flushed every {h}"),
                    h == "late")
            rec.step(sum(len(x) for x in log.rows.values()))
            rec.ok()
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(sorted((k, len(v)) for k, v in log.rows.items())))
    rec.state(prog)


def long_prog(n, stride, out, tile, style):
    """Z[out] = A[k] * B[k] with n coordinates"""
    a = tuple((c, 2 + c % 5) for c in range(0, n))
    b = tuple((c, 3 + c % 7) for c in range(0, n, stride))
    tiles = (("k", tile),) if tile else ()
    order = ("k1", "k0") if tile else ("k",)
    return ((out, ("k", "k")), (("k", n),), (a, b), order, tiles, False,
            style, True, "C")


def chk_long(case, rec):
    """traces longer than the default flush threshold"""
    prog, types, how = long_prog(*case[:5]), case[5], case[6]
    sub = Rec()
    chk((prog, types, how), sub)
    rec.step(sub.steps)
    rec.ok(len(how))
    rec.state(case)


def chk_tuple(case, rec):
    """loops over a flattened rank: tuple coordinates, written as integers"""
    expr, specs, style, how = case
    out, ops = expr
    w = f"Z[{out}] = {' * '.join(ops)} over a flattened rank, style {style} " \
        f"operands {specs!r}"
    K = 3
    def world():
        res = []
        for s in specs:
            t = M.mk_tensor(s, 2, shape=(2, K), rank_ids=["M", "J"])
            t = t.flattenRanks()
            t.setRankIds(["K"])
            res.append(t)
        return res
    prog = (expr, (("k", 2 * K),),
            tuple(tuple((c[0] * K + c[1], v) for c, v in M.raw_t(t))
                  for t in world()), ("k",), (), False, style, False, "C")
    log, _ = m_program(prog, c15.build(prog))

    def run(ops, n):
        Metrics.associateShape("K", (2, K))
        z = c15.mk_out(prog)
        c15.execute(prog, ops, z, n)
        return z
    try:
        for h, n, rows, z in run_modes(
                world, run, ["K"], [("K", t) for t in ITYPES], how, w):
            compare(rows, log, n, w + HOW.get(h, f", flushed every {h}"))
            rec.step(sum(len(x) for x in log.rows.values()))
            rec.ok()
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(sorted((k, len(v)) for k, v in log.rows.items())))
    rec.state(case)


# ---------------------------------------------------------------- idioms

def acc(z, v):
    z.set(z.val + v)


def m_idiom(name, log, a, b, y, S, src="K"):
    def go(g):
        return R.loop(log, "K", g)
    zero = (lambda: 0)
    if name == "and":
        for _ in go(R.both(log, "K", R.leaf(a), R.leaf(b))):
            pass
    elif name == "lf":
        for _ in go(R.leader(log, "K", [a, b])):
            pass
    elif name == "or":
        for _ in go(R.either(log, "K", R.leaf(a), R.leaf(b), zero, zero)):
            pass
    elif name == "union":
        def nested():
            # the inner union starts after the outer one took its labels
            yield from R.either(log, "K", R.leaf(a), R.leaf(b), zero, zero)
        for _ in go(R.either(log, "K", nested(), R.leaf(a), zero, zero)):
            pass
    elif name == "xor":
        A, B = ({c: p for _, c, p in R.leaf(f)} for f in (a, b))
        for _ in go(R.seq((None, c, 0) for c in sorted(set(A) ^ set(B)))):
            pass
    elif name == "sub":
        B = {c for _, c, p in R.leaf(b)}
        for _ in go(R.seq(x for x in R.leaf(a) if x[1] not in B)):
            pass
    elif name == "occ":
        for _ in go(R.stored(a)):
            pass
    elif name == "range":
        for _ in go(R.stored(a, 1, 3)):
            pass
    elif name in ("shape", "active"):
        for _ in go(R.dense(a, 0, S)):
            pass
    elif name == "rshape":
        for _ in go(R.dense(a, 0, S, 2)):
            pass
    elif name in ("shaperef", "activeref"):
        f = b if name == "shaperef" else a
        for c, r in go(R.dense_ref(y, 0, S)):
            acc(r, f.get(c)[1] or 0)
    elif name in ("coiter", "coiteractive"):
        for _ in go(R.seq(R.dense(a, 0, S))):
            pass
    elif name == "coiterref":
        for c, r in go(R.seq(R.dense_ref(y, 0, S))):
            acc(r, a.get(c)[1] or 0)
    elif name == "pop":
        for c, (r, p) in go(R.populate(log, "K", y, R.leaf(a))):
            acc(r, p)
    elif name == "popand":
        for c, (r, (p, q)) in go(R.populate(
                log, "K", y, R.both(log, "K", R.leaf(a), R.leaf(b)))):
            acc(r, p * q)
    elif name == "popor":
        for c, (r, (_, p, q)) in go(R.populate(
                log, "K", y, R.either(log, "K", R.leaf(a), R.leaf(b), zero,
                                      zero))):
            acc(r, p + q)
    elif name == "popset":
        for c, (r, p) in go(R.populate(log, "K", y, R.leaf(a))):
            r.set(b.get(c)[1] or 0)
    elif name == "ref":
        for c, p in go(R.leaf(a)):
            i, old = y.get(c)
            if old is None:
                y.items.insert(i, [c, 0])
            acc(R.Ref(y, c), p * (b.get(c)[1] or 0))
    elif name in ("project", "reverse"):
        fn, iv = ((lambda c: c + 1), (0, S)) if name == "project" else \
            ((lambda c: 2 - c), None)
        for _ in go(R.both(log, "K", R.leaf(a), R.project(
                log, src, b, fn, iv, "K"))):
            pass
    elif name == "project1":
        for _ in go(R.project(log, "K", a, lambda c: c + 2, None, "K")):
            pass
    elif name == "popproject":
        for c, (r, p) in go(R.populate(log, "K", y, R.project(
                log, "K", a, lambda c: c + 1, (0, S), "K"))):
            acc(r, p)
    else:
        raise AssertionError(name)


def m_nest(name, deep, sa, sb, sy, fmt, src="K"):
    d = 2 if deep else 1
    sh = (2, 3)[-d:]
    a, b = R.mf(sa, d, fmt, sh), R.mf(sb, d, fmt, sh)
    y = R.mf(sy, d)
    log = R.Log()
    if not deep:
        m_idiom(name, log, a, b, y, 3, src)
    else:
        for m, (r, (_, ak, bk)) in R.loop(log, "M", R.populate(
                log, "M", y, R.either(log, "M", R.leaf(a), R.leaf(b),
                                      a.empty_child, b.empty_child))):
            m_idiom(name, log, ak, bk, r.val, 3, src)
    return log, R.raw(y)


ITYPES = ["iter", "intersect_0", "intersect_1", "intersect_2", "intersect_3",
          "populate_0", "populate_1", "populate_read_0", "populate_write_0",
          "populate_read_1", "union_0", "union_1", "union_2", "union_3",
          "project_0", "project_2"]


def chk_idiom(case, rec):
    name, sa, sb, sy, deep, fmt, src, how = case
    w0 = f"{name} {'below M ' if deep else ''}of {sa!r} and {sb!r} into " \
         f"{sy!r}{' uncompressed' if fmt == 'U' else ''}" \
         f"{'' if src == 'K' else ' second operand of rank ' + src}"
    log, want = m_nest(name, deep, sa, sb, sy, fmt, src)
    ranks = ["M", "K"] if deep else ["K"]
    traces = [(r, t) for r in ranks for t in ITYPES]
    if src != "K":
        traces.append((src, "project_2"))

    def world():
        d = 2 if deep else 1
        sh = (2, 3)[-d:]
        ids = ["M", "K"][-d:]
        a = M.mk_tensor(sa, d, shape=sh, rank_ids=ids, fmts=fmt * d)
        b = M.mk_tensor(sb, d, shape=sh, rank_ids=ids[:-1] + [src],
                        fmts=fmt * d)
        y = M.mk_tensor(sy, d, shape=sh, rank_ids=ids)
        return a, b, y, Payload(0)

    def run(ops, n):
        c15.run_idiom(name, deep, *ops, n)
        return ops[2]
    try:
        for h, n, rows, y in run_modes(world, run, ["M", "K"], traces, how,
                                       w0):
            eq(M.raw_t(y), want, f"{w0}: output tree")
            compare(rows, log, n, w0 + HOW.get(h, f", flushed every {h}"),
                    h == "late")
            rec.step(sum(len(x) for x in log.rows.values()))
            rec.ok()
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(sorted((k, len(v)) for k, v in log.rows.items())))
    rec.state(case[:-1])


# ---------------------------------------------------------------- start_pos

STARTS = ("occ", "iter", "range", "active", "pop", "project", "prune", "get",
          "ref")
STYPES = ["iter", "populate_0", "populate_1", "populate_read_0",
          "populate_write_0", "project_0", "get", "ref"]


def legal_sp(f_items, c, p):
    """the largest legal search start <= p for coordinate c"""
    cs = [x for x, _ in f_items]
    p = min(p, len(cs) - 1)
    while p > 0 and cs[p] > c:
        p -= 1
    return max(p, 0)


def m_start(name, log, a, b, y, p, lo, hi):
    """Model of a loop started at position p"""
    def go(g):
        return R.loop(log, "K", g)
    if name in ("occ", "iter"):
        for _ in go(R.stored(a, start=p)):
            pass
    elif name in ("range", "active"):
        for _ in go(R.stored(a, lo, hi, p)):
            pass
    elif name == "pop":
        for c, (r, v) in go(R.populate(log, "K", y, R.leaf(b), p)):
            if c != lo:
                acc(r, v)
    elif name == "project":
        for _ in go(R.project(log, "K", a, lambda c: c + 1, (lo, hi), "K", p)):
            pass
    elif name == "prune":
        for _ in go(R.seq(x for x in R.stored(a, start=p) if x[1] != lo)):
            pass
    elif name == "get":
        for c, _ in go(R.stored(b)):
            with log.at_head():
                R.find(log, "K", "get", a, c)
    elif name == "ref":
        for c, v in go(R.stored(b)):
            i, old = y.get(c)
            if old is None:
                y.items.insert(i, [c, 0])
            with log.at_head():
                log.row("K", "ref", c, (i,))
            acc(R.Ref(y, c), v)
    else:
        raise AssertionError(name)


def r_start(name, a, b, y, p, lo, hi, n):
    """The same on the real objects"""
    if name == "occ":
        g = a.iterOccupancy(start_pos=p)
    elif name == "iter":
        g = a.__iter__(start_pos=p)
    elif name == "range":
        g = a.iterRange(lo, hi, start_pos=p)
    elif name == "active":
        a.setActive((lo, hi))
        g = a.iterActive(start_pos=p)
    elif name == "project":
        g = a.project(trans_fn=lambda c: c + 1, interval=(lo, hi),
                      start_pos=p, rank_id="K")
    elif name == "prune":
        g = a.prune(lambda i, c, v: c != lo, start_pos=p)
    elif name == "pop":
        for c, (r, v) in y.__lshift__(b, start_pos=p):
            n.body("K")
            if c != lo:
                r += v
        return
    elif name in ("get", "ref"):
        for c, v in b.iterOccupancy():
            n.body("K")
            f = a if name == "get" else y
            sp = legal_sp(list(zip(f.coords, f.payloads)), c, p) \
                if p is not None else None
            if sp is not None and not f.coords:
                sp = 0
            if name == "get":
                f.getPayload(c, trace="get", start_pos=sp)
                f.getPayload(c)     # an untraced access adds nothing
            else:
                r = f.getPayloadRef(c, trace="ref", start_pos=sp)
                r += v
                f.getPayloadRef(c)
        return
    for _ in g:
        n.body("K")


def start_legal(name, a, b, y, p, lo, hi):
    """Is p a legal start position of this loop?"""
    if p is None:
        return True
    ca, cy = [c for c, _ in a], [c for c, _ in y]
    if name in ("get", "ref"):
        return True
    if name == "pop":
        cb = [c for c, v in b if v != 0]
        return p <= len(cy) and (p == 0 or bool(cb) and cy[p - 1] < cb[0])
    if p >= len(ca):
        return False
    if name == "project":
        return p == 0 or ca[p - 1] + 1 < lo
    if name in ("range", "active"):
        return p == 0 or ca[p - 1] < lo
    return True


def chk_start(case, rec):
    name, sa, sb, sy, deep, lo, hi, p, how = case
    if p is not None and not start_legal(name, sa, sb, sy, p, lo, hi):
        return
    w0 = f"{name} of {sa!r} and {sb!r} into {sy!r}, start position {p}, " \
         f"range {lo} {hi}{', below a loop over M' if deep else ''}"
    S = 4
    ranks = ["M", "K"] if deep else ["K"]

    def world():
        mk = (lambda s: M.mk_tensor(((0, s), (1, s)), 2, shape=(2, S),
                                    rank_ids=["M", "K"])) if deep else \
            (lambda s: M.mk_tensor(s, 1, shape=(S,), rank_ids=["K"]))
        return mk(sa), mk(sb), mk(sy)
    log = R.Log()
    ys = []
    model_p = p or 0
    if not deep:
        y = R.mf(sy, 1)
        m_start(name, log, R.mf(sa, 1), R.mf(sb, 1), y, model_p, lo, hi)
        want = R.raw(y)
    else:
        fm = R.mf(((0, sa), (1, sa)), 2)
        for m, ak in R.loop(log, "M", R.leaf(fm)):
            y = R.mf(sy, 1)
            m_start(name, log, ak, R.mf(sb, 1), y, model_p, lo, hi)
            ys.append((m, R.raw(y)))
        want = tuple((m, dict(ys).get(m, sy)) for m in (0, 1))

    def run(ops, n):
        a, b, y = ops
        if not deep:
            r_start(name, a.getRoot(), b.getRoot(), y.getRoot(), p, lo, hi, n)
        else:
            for m, ak in a.getRoot():
                n.body("M")
                r_start(name, ak, b.getRoot().getPayload(m),
                        y.getRoot().getPayload(m), p, lo, hi, n)
        return y
    try:
        for h, n, rows, y in run_modes(world, run, ranks,
                                       [(r, t) for r in ranks for t in STYPES],
                                       how, w0):
            eq(M.raw_t(y), want, f"{w0}: output tree")
            compare(rows, log, n, w0 + HOW.get(h, f", flushed every {h}"))
            rec.step(sum(len(x) for x in log.rows.values()))
            rec.ok()
        # the same program outside a session: nothing to trace
        run(world(), T.Count(ranks))
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(sorted((k, len(v)) for k, v in log.rows.items())))
    rec.state(case[:-1])


# ---------------------------------------------------------------- matched ranks

MTYPES = ["iter", "get", "ref", "in"]


def chk_match(case, rec):
    """Random accesses to a fiber of a rank matched to a loop's rank"""
    deep, sa, sb, d, chain, reg, touch, fmt, how = case
    w0 = f"loop over J{' below H' if deep else ''}, M of {sa!r}, accesses at " \
         f"j + {d} to {sb!r} of K{' uncompressed' if fmt == 'U' else ''}, " \
         f"matched {chain} {reg}, accessed {touch}"
    S = 4
    loops = ["H", "J", "M"][not deep:]
    L = len(loops)
    log = R.Log()
    log.matched["K"] = "J"
    b, y = R.mf(sb, 1, fmt, (S,)), R.mf(sb, 1)

    def m_touch(levels):
        """accesses of a body below the rank J"""
        with log.cut(L - 2):
            for t in touch:
                if t in "bic":
                    R.find(log, "K", "in" if t == "i" else "get", b,
                           levels + d)
                else:
                    i, old = y.get(levels + d)
                    if old is None:
                        y.items.insert(i, [levels + d, 0])
                    log.row("K", "ref", levels + d, (i,))
                    acc(R.Ref(y, levels + d), 1)

    def m_level(f, rank, j):
        for c, p in R.loop(log, rank, R.leaf(f)):
            if rank == "J":
                j = c
                m_touch_if("br", j)
            if rank != "M":
                m_level(p, loops[loops.index(rank) + 1], j)
            else:
                m_touch_if("i", j)
            if rank == "J":
                m_touch_if("c", j)

    def m_touch_if(kinds, j):
        nonlocal touch
        saved, touch = touch, [t for t in touch if t in kinds]
        m_touch(j)
        touch = saved

    root = ((0, sa), (2, sa)) if deep else sa
    m_level(R.mf(root, L), loops[0], None)
    if "J" not in log.bodies and reg != "before":
        del log.matched["K"]    # never matched

    def world():
        sh = (3, 3, 2)[-L:]
        return (M.mk_tensor(root, L, shape=sh, rank_ids=loops),
                M.mk_tensor(sb, 1, shape=(S,), rank_ids=["K"], fmts=fmt),
                M.mk_tensor(sb, 1, shape=(S,), rank_ids=["K"]))

    pairs = {"JK": [("J", "K")], "KJ": [("K", "J")],
             "JIK": [("J", "I"), ("I", "K")],
             "IKJ": [("I", "K"), ("J", "I")]}[chain]

    def run(ops, n):
        a, b, y = ops
        bf, yf = b.getRoot(), y.getRoot()
        todo = [reg == "before"]

        def match():
            for x, z in pairs:
                Metrics.matchRanks(x, z)
            for t in MTYPES if late else ():
                Metrics.trace("K", t, consumable=True)
        collecting = Metrics.isCollecting()
        if collecting and todo[0]:
            match()

        def level(f, rank, j):
            for c, p in f:
                n.body(rank)
                if rank == "J":
                    j = c
                    if collecting and not todo[0]:
                        match()
                        todo[0] = True
                    for t in touch:
                        if t == "b":
                            bf.getPayload(j + d, trace="get")
                        elif t == "r":
                            v = yf.getPayloadRef(j + d, trace="ref")
                            v += 1
                if rank != "M":
                    level(p, loops[loops.index(rank) + 1], j)
                elif "i" in touch:
                    bf.getPayload(j + d, trace="in")
                    bf.getPayload(0)    # untraced
                if rank == "J" and "c" in touch:
                    bf.getPayload(j + d, trace="get")
        level(a.getRoot(), loops[0], None)
        if collecting and late and todo[0]:
            # no row before the first body, so the trace is complete
            n.extra = {("K", t): T.rows_of({"m": Metrics.consumeTrace("K", t)})
                       for t in MTYPES}
        return y

    late = reg == "late"
    traces = [(r, t) for r in (loops if late else loops + ["K"])
              for t in MTYPES]
    try:
        for h, n, rows, out in run_modes(world, run, loops + ["K"], traces,
                                         how, w0):
            eq(M.raw_t(out), R.raw(y), f"{w0}: output tree")
            rows.update(getattr(n, "extra", {}))
            compare(rows, log, n, w0 + HOW.get(h, f", flushed every {h}"))
            rec.step(sum(len(x) for x in log.rows.values()))
            rec.ok()
        run(world(), T.Count(loops))
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(sorted((k, len(v)) for k, v in log.rows.items())))
    rec.state(case[:-1])


# ---------------------------------------------------------------- subtrees

def chk_subtree(case, rec):
    """Fiber.trace: one row for every element of a subtree"""
    depth, spec, fmts, extra, inloop, start, how = case
    w0 = f"trace of {'each sub-fiber' if inloop else 'the root'} of {spec!r} " \
         f"formats {fmts}, rank N registered at {extra}" \
         f"{f', from iteration {start}' if start else ''}"
    ids = ["K", "M", "J"][:depth]
    sh = (2, 3, 2)[:depth]
    order = list(ids)
    if extra is not None:
        order.insert(extra, "N")
    at = {r: order.index(r) for r in ids}
    want = {r: [] for r in ids}
    bodies = []

    # what a walk of the tree touches
    count = dict.fromkeys(order, 0)

    def walk(f, lvl, point, explicit):
        r = ids[lvl]
        for pos, c, p in R.leaf(f):
            stamp = [explicit[i] if explicit else count[x]
                     for i, x in enumerate(order)][:at[r] + 1]
            want[r].append((stamp, {**point, r: c}, pos))
            if lvl + 1 < depth:
                walk(p, lvl + 1, {**point, r: c}, explicit)
            if explicit:
                explicit[at[r]] += 1
            else:
                count[r] += 1
        count[r] = 0

    def mk(spec, lvl):
        return R.MF([[c, mk(p, lvl + 1) if lvl + 1 < depth else p]
                     for c, p in spec], depth - lvl, fmts[lvl], sh[lvl:])

    def fill(f, lvl):
        """children that are not stored have their own format"""
        if lvl + 1 == depth:
            return
        f.empty_child = lambda: mk((), lvl + 1)
        for _, p in f.items:
            fill(p, lvl + 1)
    root = mk(spec, 0)
    fill(root, 0)
    if not inloop:
        walk(root, 0, {}, list(start) if start else None)
    else:
        for pos, c, p in R.leaf(root):
            bodies.append(list(count[x] for x in order))
            walk(p, 1, {"K": c}, list(start) if start else None)
            count["K"] += 1

    def run(t, n):
        for r in order:
            Metrics.registerRank(r)
        it = list(start) if start else None
        f = t.getRoot()
        if not inloop:
            f.trace("A", iteration_num=it)
            return t
        seen = []
        for c, p in f:
            seen.append(list(Metrics.getIter()))
            p.trace("A", iteration_num=list(it) if it else None)
            # the enclosing loop is where it was
            eq(list(Metrics.getIter()), seen[-1], f"{w0}: iteration after the "
               f"trace")
        eq(seen, bodies, f"{w0}: stamps of the loop bodies")
        return t
    traces = [(r, t) for r in ids for t in ("A", "iter")]
    try:
        for h, n, rows, _ in run_modes(lambda: M.mk_tensor(
                spec, depth, shape=sh, rank_ids=ids, fmts=fmts), run, order,
                traces, how, w0):
            for r in ids[inloop:]:
                header, got = rows[r, "A"]
                t = f"{w0}: trace A of {r}{HOW.get(h, f', flushed every {h}')}"
                d = at[r] + 1
                eq(header, [x + "_pos" for x in order[:d]] + order[:d] +
                   ["fiber_pos"], f"{t}: header")
                got = [[int(x) for x in row] for row in got]
                eq(len(got), len(want[r]), f"{t}: number of rows {got}")
                for x, (stamp, point, pos) in zip(got, want[r]):
                    eq(x[:d], stamp, f"{t}: stamp of {x}")
                    for q, c in point.items():
                        eq(x[d + at[q]], c, f"{t}: coordinate {q} of {x}")
                    require(pos is R.ANY or x[-1] in pos, "{}: position of "
                            "{}, the element is at {}", t, x, pos)
                    rec.step()
            rec.ok()
    finally:
        T.reset()
        T.clean("c16")
    rec.outcome(tuple(len(want[r]) for r in ids))
    rec.state(case[:-1])


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"
    c06fams = {f.name: f for f in c06.families("quick")}

    def types_for(prog):
        n = max(sum(r[0] in op for op in prog[0][1]) for r in prog[3])
        ts = ["iter"]
        if n > 1:
            ts += [f"intersect_{i}" for i in range(2 * n)]
        ts += ["populate_0", "populate_1", "populate_read_0",
               "populate_write_0"]
        return tuple(ts)

    def programs(names, step, how):
        i = 0
        for name in names:
            for c in c06fams[name].gen():
                i += 1
                if i % step == 0:
                    yield (c, types_for(c), how(i))

    def f_one():
        yield from programs(["one-index"], 7 if q else 1, lambda i: ("m",))

    def f_two():
        yield from programs(["two-index", "two-index-tiled"], 5 if q else 1,
                            lambda i: ("m",))

    def f_three():
        yield from programs(["three-index", "three-index-tiled"],
                            10 if q else 1, lambda i: ("m",))

    def f_formats():
        yield from programs(["formats"], 3 if q else 1, lambda i: ("m",))

    def f_large():
        yield from programs(["large"], 11 if q else 1, lambda i: ("m",))

    def f_flush():
        yield from programs(["two-index", "three-index", "one-index"],
                            211 if q else 29, lambda i:
                            ("e", 2, 3, 4, 5, 7, 1000))

    def f_subsets():
        yield from programs(["two-index", "three-index", "one-index"],
                            101 if q else 13, lambda i: ("1", "late", "b"))

    def f_tuple():
        pool = [M.specs((2, 3), M.linval((2, 3), b)) for b in (1, 5, 9)]
        pool = [p[::(5 if q else 1)] for p in pool]
        i = 0
        for expr in c06.ONE:
            n = len(expr[1])
            step = {1: 1, 2: 41 if q else 17, 3: 80021 if q else 300007}[n]
            for specs in itertools.product(*pool[:n]):
                i += 1
                if i % step == 0:
                    for st in c06.STYLES[n]:
                        yield (expr, specs, st, ("m",) if i % 3 else (2,))

    pops = ("pop", "popand", "popor", "popset", "popproject")

    def f_idioms(deep=False):
        v = {1: lambda pt: 2 + pt[-1] + 3 * sum(pt[:-1]),
             2: lambda pt: 3 - pt[-1], 3: lambda pt: -2 - pt[-1]}
        A = M.specs((3,), v[1])
        B = M.specs((3,), v[2])
        # outputs that already hold elements; some sums cancel
        ys = M.specs((3,), v[3])
        for name in T.IDIOMS:
            if name == "pop2":
                continue
            needs_b = name not in ("occ", "range", "shape", "rshape", "active",
                                   "activeref", "coiterref", "pop",
                                   "project1", "popproject", "coiter",
                                   "coiteractive")
            takes_y = name in pops or name in ("shaperef", "activeref",
                                               "coiterref", "ref")
            i = 0
            for fmt in "CU":
                for src in ("K", "J") if name in ("project", "reverse") \
                        else ("K",):
                    for sa in A:
                        for sb in B if needs_b else [B[13]]:
                            for sy in ys if takes_y else [()]:
                                i += 1
                                if q and needs_b and takes_y and i % 7:
                                    continue
                                how = ("m",)
                                if i % (40 if q else 10) == 0:
                                    how = ("m", "e", 2, 3, "1", "late", "b")
                                elif i % 3 == 0:
                                    how = ("b",)
                                yield (name, sa, sb, sy, False, fmt, src, how)

    def f_deep():
        v1 = lambda pt: 2 + pt[-1] + 3 * pt[0]
        v2 = lambda pt: 3 - pt[-1]
        v3 = lambda pt: -2 - pt[-1] - 3 * pt[0]
        A, B, Y = (M.specs((2, 3), v) for v in (v1, v2, v3))
        ys = [Y[k] for k in range(0, len(Y), 97)]
        step = 2003 if q else 211
        for name in T.IDIOMS:
            if name == "pop2":
                continue
            takes_y = name in pops or name in ("shaperef", "activeref",
                                               "coiterref", "ref")
            i = 0
            for fmt in "CU":
                for src in ("K", "J") if name in ("project", "reverse") \
                        else ("K",):
                    for sa in A:
                        for sb in B:
                            i += 1
                            if i % step:
                                continue
                            sy = ys[i % len(ys)] if takes_y else ()
                            yield (name, sa, sb, sy, True, fmt, src, ("m",)
                                   if i % 10 else ("e", 2, "b"))

    def part(n):
        return f"; every {n}th program of the enumeration" if q else ""

    def f_long():
        for out in ("k", ""):
            for stride in (1, 2, 7):
                for tile in (0, 16, 700):
                    types = types_for(long_prog(4, 1, out, tile, "and"))
                    for n in ((1400,) if q else (999, 1000, 1001, 1400, 2600)):
                        yield (n, stride, out, tile, "and", types, ("m", 1000))

    def f_start():
        fs = M.specs((4,), lambda pt: 2 + pt[0])
        few = fs[::7] if q else fs
        out = [f for i, f in enumerate(fs) if i % (10 if q else 3) == 0]
        for deep in (False, True):
            for name in STARTS:
                reads = name not in ("pop", "ref")
                # "get" loops over b and reads a; "pop", "ref" write y
                for a in fs if reads else [fs[-1]]:
                    for b in few if name in ("get", "pop", "ref") \
                            else [()]:
                        for y in [()] if reads else out:
                            rs = [(lo, hi) for lo in range(4)
                                  for hi in (lo + 1, 4, 5)] if name in (
                                "range", "active", "project") \
                                else [(0, 4), (2, 4)]
                            for lo, hi in rs:
                                for p in (None, 0, 1, 2, 3):
                                    if p is not None and not start_legal(
                                            name, a, b, y, p, lo, hi):
                                        continue
                                    yield (name, a, b, y, deep, lo, hi, p,
                                           ("m",))

    def f_match():
        A = M.specs((3, 2), lambda pt: 1 + pt[1])
        B = M.specs((4,), lambda pt: 2 + pt[0])
        B = B[::9 if q else 2]
        i = 0
        for deep in (False, True):
            for sa in A[::(11 if q else 2)]:
                for sb in B:
                    for d in range(-1, 3):
                        if d < 0 and any(c + d < 0 for c, _ in sa):
                            continue
                        for chain in ("JK", "KJ", "JIK", "IKJ"):
                            for reg in ("before", "first", "late"):
                                for touch in ("b", "r", "br", "bi", "ic",
                                              "ri", "bic"):
                                    i += 1
                                    if i % (29 if q else 17):
                                        continue
                                    fmt = "CU"[i % 2 and "r" not in touch]
                                    yield (deep, sa, sb, d, chain, reg, touch,
                                           fmt, ("m", "e", 2)
                                           if i % 4 == 0 and reg != "late"
                                           else ("m",))

    def f_subtree():
        pools = {1: M.specs((2,), lambda pt: 1 + pt[0]),
                 2: M.specs((2, 3), lambda pt: 1 + pt[1]),
                 3: M.specs((2, 3, 2), lambda pt: 1 + pt[2])
                 if not q else M.specs((2, 3), lambda pt: 1)}
        if q:
            # one child per fiber of the middle rank
            pools[3] = [tuple((c, tuple((m, ((m % 2, 7),)) for m, _ in p))
                              for c, p in s) for s in pools[3][::3]]
        i = 0
        for depth, pool in pools.items():
            for inloop in ((False,) if depth == 1 else (False, True)):
                for extra in (None, 0, 1, depth):
                    for fmts in ("C" * depth, "U" * depth, "CUC"[:depth],
                                 "UCU"[:depth]):
                        for start in (None, (5, 6, 1, 2)):
                            k = depth + (extra is not None)
                            i += 1
                            step = {1: 1, 2: 11 if q else 1,
                                    3: 31 if q else 301}[depth]
                            for spec in pool[i % step::step]:
                                yield (depth, spec, fmts, extra, inloop,
                                       start and start[:k],
                                       ("m", 2) if i % 5 == 0 else ("m",))

    return [
        Family("subtree", f_subtree, chk_subtree, "Fiber.trace of the root "
               "and of every sub-fiber inside a loop, depth 1-3, formats "
               "C/U/mixed, an unrelated rank registered anywhere, default "
               "and explicit iteration"),
        Family("matched", f_match, chk_match, "random accesses to a rank "
               "matched to the rank of a loop (directly or by a chain, before "
               "or inside the loop, traces registered before or after), made "
               "before, inside and after a deeper loop; 2 and 3 loops; fixed "
               "strides"),
        Family("start", f_start, chk_start, "loops and random accesses "
               "started at every legal position (iterOccupancy, iterActive, "
               "iterRange, __iter__, populate, project, prune, "
               "getPayload, getPayloadRef), all fibers of extent 4, flat and "
               "below a loop over M; the same outside a session"),
        Family("long", f_long, chk_long, "1400 coordinates (thorough: 999, "
               "1000, 1001, 1400, 2600), untiled and two tilings, default "
               "flush threshold"),
        Family("one-index", f_one, chk, "C06 programs over one index, all "
               "trace types of all ranks" + part(7)),
        Family("two-index", f_two, chk, "C06 programs over two indices, "
               "untiled and tiled" + part(5)),
        Family("three-index", f_three, chk, "C06 programs over three indices, "
               "untiled and tiled (depth 3-4)" + part(10)),
        Family("formats", f_formats, chk, "uncompressed operands, outputs of "
               "estimated shape" + part(3)),
        Family("large", f_large, chk, "the C06 programs over large extents (up "
               "to 131)" + (" (every 11th)" if q else "")),
        Family("flush", f_flush, chk, "flush thresholds 2, 3, 4, 5, 7, 1000, "
               "file against memory, traces consumed after every loop body; "
               f"every {211 if q else 29}th program"),
        Family("subsets", f_subsets, chk, "each trace registered alone; "
               "traces registered inside the first body of their loop; "
               f"every {101 if q else 13}th program"),
        Family("tuple", f_tuple, chk_tuple, "one-index programs over a "
               "flattened rank, every fifth operand (thorough: every one), "
               "fixed strides of the operand combinations"),
        Family("idioms", f_idioms, chk_idiom, f"{len(T.IDIOMS) - 1} loop "
               "idioms x all fibers of extent 3 (absent, explicit zero, value) "
               "x outputs that already hold elements" + (
                   "; every 7th combination where there are three operands"
                   if q else "")),
        Family("nested", f_deep, chk_idiom, "the same below a rank M that "
               "is a union populating the output; every "
               f"{2003 if q else 211}th operand pair"),
    ]
