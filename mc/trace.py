"""Running a kernel inside a metrics-collection session."""

import glob
import os

from fibertree import Fiber, Metrics, Payload

from .props import c06

TYPES = (["iter"] + [f"intersect_{i}" for i in range(6)] +
         [f"populate_{i}" for i in range(4)] +
         [f"populate_read_{i}" for i in range(4)] +
         [f"populate_write_{i}" for i in range(4)])


def reset(cached=1000):
    """leave any session behind; public entry points only"""
    Metrics.beginCollect()
    Metrics.endCollect()
    Metrics.setNumCachedUses(cached)


def clean(prefix):
    for p in glob.glob(glob.escape(prefix) + "-*.csv"):
        os.remove(p)


def read_csv(path):
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return f.read()


def csv(rows):
    return "".join(",".join(str(v) for v in r) + "\n" for r in rows)


def session(prefix, traces, run, before=None):
    """Run the kernel while collecting.

    traces: (rank, type, mode), mode "f" (file), "m" (consumable) or "fm".
    Returns (what run returned, dump, {(rank, type): {mode: rows or text}}).
    """
    Metrics.beginCollect(prefix)
    for rank, type_, mode in traces:
        for m in mode:
            Metrics.trace(rank, type_, consumable=(m == "m"))
    if before:
        before()
    res = run()
    got = {}
    for rank, type_, mode in traces:
        if "m" in mode:
            got[rank, type_] = {"m": list(Metrics.consumeTrace(rank, type_))}
    Metrics.endCollect()
    for rank, type_, mode in traces:
        if "f" in mode:
            got.setdefault((rank, type_), {})["f"] = \
                read_csv(f"{prefix}-{rank}-{type_}.csv")
    return res, Metrics.dump(), got


def rows_of(g):
    """header and rows (as strings) of one trace, whatever its mode"""
    if "m" in g:
        lines = csv(g["m"]).splitlines()
    else:
        lines = (g["f"] or "").splitlines()
    lines = [x.split(",") for x in lines]
    return (lines[0], lines[1:]) if lines else (None, [])


class Count:
    """What the kernel itself executed"""

    def __init__(self, ranks):
        self.mul = self.add = self.update = 0
        self.bodies = dict.fromkeys(ranks, 0)
        self.log = []       # (rank, iteration stamp) of every loop body

    def body(self, rank):
        self.bodies[rank] += 1
        if Metrics.isCollecting():
            self.log.append((rank, tuple(Metrics.getIter())))

    def ops(self):
        return {"mul": self.mul, "add": self.add, "update": self.update}


def kernel(out, ops, order, level, cur, z, style, n):
    """The C06 kernel, counting what it does in n"""
    if level == len(order):
        prod = cur[0]
        for v in cur[1:]:
            prod = prod * v
            n.mul += 1
        if style == "lf" and prod == 0:
            return
        old = Payload.get(z)
        n.update += 1
        if old != 0:
            n.add += 1
        z += prod
        return
    r = order[level]
    who = [i for i, op in enumerate(ops) if r[0] in op]
    co = c06.coiterate([cur[i] for i in who], style)
    if r[0] in out:
        for c, (z_ref, p) in z << co:
            n.body(c06.rid(r))
            nxt = list(cur)
            for i, v in zip(who, c06.unpack(p, len(who), style)):
                nxt[i] = v
            kernel(out, ops, order, level + 1, nxt, z_ref, style, n)
    else:
        for c, p in co:
            n.body(c06.rid(r))
            nxt = list(cur)
            for i, v in zip(who, c06.unpack(p, len(who), style)):
                nxt[i] = v
            kernel(out, ops, order, level + 1, nxt, z, style, n)


# ---------------------------------------------------------------- idioms
#
# Each idiom is one loop over rank K of two fibers a, b (either may come from
# an outer loop) reducing into z (a value) or writing to y (a fiber over K);
# it returns nothing and counts what it does.

def _acc(n, z, v):
    old = Payload.get(z)
    n.update += 1
    n.add += old != 0
    z += v


def _mul(n, x, y):
    n.mul += 1
    return x * y


def _add(n, x, y):
    n.add += 1
    return x + y


def i_and(a, b, y, z, n):
    for k, (p, q) in a & b:
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_lf(a, b, y, z, n):
    for k, (p, q) in Fiber.intersection(a, b, style="leader-follower"):
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_or(a, b, y, z, n):
    for k, (mask, p, q) in a | b:
        n.body("K")
        _acc(n, z, _add(n, p, q))


def i_union(a, b, y, z, n):
    for k, (mask, p, q, r) in Fiber.union(a, b, a):
        n.body("K")
        _acc(n, z, _add(n, p, q))


def i_xor(a, b, y, z, n):
    for k, (mask, p, q) in a ^ b:
        n.body("K")
        _acc(n, z, _add(n, p, q))


def i_sub(a, b, y, z, n):
    for k, p in a - b:
        n.body("K")
        _acc(n, z, p)


def i_occ(a, b, y, z, n):
    for k, p in a.iterOccupancy():
        n.body("K")
        _acc(n, z, p)


def i_range(a, b, y, z, n):
    for k, p in a.iterRange(1, 3):
        n.body("K")
        _acc(n, z, p)


def i_shape(a, b, y, z, n):
    for k, p in a.iterShape():
        n.body("K")
        _acc(n, z, _mul(n, p, 3))


def i_rshape(a, b, y, z, n):
    for k, p in a.iterRangeShape(0, 3, 2):
        n.body("K")
        _acc(n, z, p)


def i_active(a, b, y, z, n):
    for k, p in a.iterActiveShape():
        n.body("K")
        _acc(n, z, p)


def i_shaperef(a, b, y, z, n):
    for k, r in y.iterShapeRef():
        n.body("K")
        _acc(n, r, b.getPayload(k))


def i_activeref(a, b, y, z, n):
    for k, r in y.iterActiveShapeRef():
        n.body("K")
        _acc(n, r, a.getPayload(k))


def i_coiter(a, b, y, z, n):
    for k, (p, q) in Fiber.coiterShape([a, b]):
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_coiteractive(a, b, y, z, n):
    for k, (p, q) in Fiber.coiterActiveShape([a, b]):
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_coiterref(a, b, y, z, n):
    for k, (r, p) in Fiber.coiterShapeRef([y, a]):
        n.body("K")
        _acc(n, r, p)


def i_pop(a, b, y, z, n):
    for k, (r, p) in y << a:
        n.body("K")
        _acc(n, r, p)


def i_popand(a, b, y, z, n):
    for k, (r, (p, q)) in y << (a & b):
        n.body("K")
        _acc(n, r, _mul(n, p, q))


def i_popor(a, b, y, z, n):
    for k, (r, (mask, p, q)) in y << (a | b):
        n.body("K")
        _acc(n, r, _add(n, p, q))


def i_pop2(a, b, y, z, n):
    """append/insert into what a first loop wrote"""
    i_pop(a, b, y, z, n)
    i_pop(b, a, y, z, n)


def i_popset(a, b, y, z, n):
    """overwrite, zeros included"""
    for k, (r, p) in y << a:
        n.body("K")
        v = b.getPayload(k)
        n.update += 1
        r <<= v


def i_ref(a, b, y, z, n):
    for k, p in a:
        n.body("K")
        r = y.getPayloadRef(k)
        _acc(n, r, _mul(n, p, b.getPayload(k)))


def i_project(a, b, y, z, n):
    for k, (p, q) in a & b.project(lambda c: c + 1, interval=(0, 3),
                                   rank_id="K"):
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_project1(a, b, y, z, n):
    for k, p in a.project(lambda c: c + 2, rank_id="K"):
        n.body("K")
        _acc(n, z, p)


def i_reverse(a, b, y, z, n):
    for k, (p, q) in a & b.project(lambda c: 2 - c, rank_id="K"):
        n.body("K")
        _acc(n, z, _mul(n, p, q))


def i_popproject(a, b, y, z, n):
    for k, (r, p) in y << a.project(lambda c: c + 1, interval=(0, 3),
                                    rank_id="K"):
        n.body("K")
        _acc(n, r, p)


IDIOMS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("i_")}
