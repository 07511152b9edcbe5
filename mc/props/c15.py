"""C15 - metrics collection is transparent, exact and session-isolated."""

import itertools
import os
import pickle

from fibertree import CoordPayload, Fiber, Metrics, Payload, Tensor
from fibertree.model.compute import Compute

from .. import model as M
from .. import trace as T
from ..core import Family, Violation, eq, require
from . import c06

RULE = ("Every program of the C06 family within the bound is run by an "
        "interpreter that counts the multiplications, additions, updates and "
        "loop bodies it executes itself, once with collection off and once "
        "for each enumerated set of registered (rank, trace type, file or "
        "memory) traces. The output tree, the operand trees, the counts of "
        "Metrics.dump()/Compute.numOps and Compute.numIters of every traced "
        "rank are compared. Sessions: every sequence of earlier sessions up "
        "to a depth (finished, aborted, with unread consumable traces, with "
        "other ranks, matches and shapes) before a target session, whose dump "
        "and trace files must equal those of a fresh process.")
ASSUMPTIONS = [
    "an addition is an addition to a value that is not zero (the documented "
    "meaning of payload_add for in-place updates), and every `+`",
]


def build(case):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case
    out, ops = expr
    dims, tiles = dict(dims), dict(tiles)
    prepared = []
    for op, s in zip(ops, specs):
        t = M.mk_tensor(s, len(op), shape=tuple(dims[x] for x in op),
                        rank_ids=[x.upper() for x in op], fmts=fmt * len(op))
        prepared.append(c06.prepare(t, op, order, tiles, rel))
    return prepared


def mk_out(case):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case
    dims = dict(dims)
    zr = c06.ranks_for(expr[0], order)
    kw = {"shape": [dims[r[0]] for r in zr]} if declared else {}
    return Tensor(rank_ids=[c06.rid(r) for r in zr], **kw)


def execute(case, prepared, z, n):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case
    T.kernel(expr[0], expr[1], order, 0, [t.getRoot() for t in prepared],
             z.getRoot(), style, n)


def tell(case):
    expr, dims, specs, order, tiles, rel, style, declared, fmt = case
    return (f"Z[{expr[0]}] = {' * '.join(expr[1])} loops {order} "
            f"tiles {dict(tiles)} style {style} operands {specs!r}"
            f"{'' if declared else ' output of estimated shape'}"
            f"{' uncompressed' if fmt == 'U' else ''}")


def out_raw(z):
    return M.raw_t(z) if z.getRankIds() else M.unbox(z.getRoot())


def check_dump(dump, n, w):
    for op, want in n.ops().items():
        eq(Compute.numOps(dump, op), want, f"{w}: reported {op} count")
        eq(dump.get("Compute", {}).get("payload_" + op, 0), want,
           f"{w}: payload_{op} of the dump")


def check_iters(traces, got, n, w):
    for rank, type_, mode in traces:
        if type_ != "iter":
            continue
        want = n.bodies[rank]
        g = got[rank, type_]
        if "m" in mode:
            eq(max(0, len(g["m"]) - 1), want,
               f"{w}: iterations of {rank} in the consumable trace")
        if "f" in mode:
            require(g["f"] is not None, "{}: no trace file of rank {}", w, rank)
            path = "numiters.csv"
            with open(path, "w") as f:
                f.write(g["f"])
            eq(Compute.numIters(path), want, f"{w}: numIters of rank {rank}")


def configs(ranks, full):
    """sets of traces registered"""
    out = [()]
    subs = [s for k in range(1, len(ranks) + 1)
            for s in itertools.combinations(ranks, k)]
    every = tuple((r, t, "m") for r in ranks for t in T.TYPES)
    out.append(every)
    for s in subs:
        out.append(tuple((r, "iter", "f" if i == 0 else "m")
                         for i, r in enumerate(s)))
    if full:
        for s in subs:
            for kinds in (("intersect_",), ("populate_r",), ("populate_w",),
                          ("populate_r", "populate_w", "iter"),
                          ("populate_",)):
                out.append(tuple((r, t, "m") for r in s for t in T.TYPES
                                 if t.startswith(kinds)))
            out.append(tuple((r, t, "fm") for r in s for t in T.TYPES[:9]))
    return out


def chk(case, rec):
    prog, cfgs, inside = case
    w0 = tell(prog)
    T.reset()
    try:
        ops = build(prog)
        held = [M.raw_t(t) for t in ops]
        z = mk_out(prog)
        ranks = [c06.rid(r) for r in prog[3]]
        n0 = T.Count(ranks)
        execute(prog, ops, z, n0)
        want = out_raw(z)
        for cfg in cfgs:
            w = f"{w0}, tracing {list(cfg) if len(cfg) < 5 else len(cfg)}"
            n = T.Count(ranks)
            if inside:
                # the operands are made, split and swizzled while collecting
                def run():
                    o = build(prog)
                    zz = mk_out(prog)
                    execute(prog, o, zz, n)
                    return zz, o
            else:
                def run():
                    o = build(prog)
                    zz = mk_out(prog)
                    Metrics.beginCollect("c15")
                    for rank, type_, mode in cfg:
                        for m in mode:
                            Metrics.trace(rank, type_, consumable=m == "m")
                    execute(prog, o, zz, n)
                    return zz, o
            T.clean("c15")
            (z, o), dump, got = T.session("c15", cfg, run)
            rec.step(sum(n.bodies.values()))
            eq(out_raw(z), want, f"{w}: output while collecting")
            if z.getRankIds():
                M.check_tensor(z, w)
            for t, h in zip(o, held):
                eq(M.raw_t(t), h, f"{w}: operand after the kernel")
            eq(n.bodies, n0.bodies, f"{w}: loop bodies executed")
            eq(n.ops(), n0.ops(), f"{w}: operations executed")
            check_dump(dump, n, w)
            if not inside:
                check_iters(cfg, got, n, w)
            rec.ok()
            rec.outcome((tuple(n.ops().items()), tuple(n.bodies.items())))
        T.clean("c15")
    finally:
        T.reset()
    rec.state(prog)


# ---------------------------------------------------------------- idioms

def idiom_world(spec_a, spec_b, spec_y, deep, fmt):
    """operands, one rank deep or below a rank M, and outputs"""
    d = 2 if deep else 1
    ids = ["M", "K"][-d:]
    sh = (2, 3)[-d:]
    a = M.mk_tensor(spec_a, d, shape=sh, rank_ids=ids, fmts=fmt * d)
    # a projected operand is read through the rank it is projected to
    b = M.mk_tensor(spec_b, d, shape=sh, rank_ids=ids, fmts=fmt * d)
    y = M.mk_tensor(spec_y, d, shape=sh, rank_ids=ids)
    return a, b, y, Payload(0)


def run_idiom(name, deep, a, b, y, z, n):
    f = T.IDIOMS[name]
    if not deep:
        f(a.getRoot(), b.getRoot(), y.getRoot(), z, n)
        return
    for m, (y_k, (mask, a_k, b_k)) in y.getRoot() << (a.getRoot() |
                                                      b.getRoot()):
        n.body("M")
        f(a_k, b_k, y_k, z, n)


def chk_idiom(case, rec):
    name, spec_a, spec_b, spec_y, deep, fmt, cfgs = case
    w0 = f"{name} {'below M ' if deep else ''}of {spec_a!r} and {spec_b!r} " \
         f"into {spec_y!r}{' uncompressed' if fmt == 'U' else ''}"
    T.reset()
    try:
        world = idiom_world(spec_a, spec_b, spec_y, deep, fmt)
        n0 = T.Count(["M", "K"])
        run_idiom(name, deep, *world, n0)
        want = [M.raw_t(t) for t in world[:3]] + [Payload.get(world[3])]
        for cfg in cfgs:
            w = f"{w0}, tracing {list(cfg) if len(cfg) < 5 else len(cfg)}"
            world = idiom_world(spec_a, spec_b, spec_y, deep, fmt)
            n = T.Count(["M", "K"])
            T.clean("c15i")
            _, dump, got = T.session(
                "c15i", cfg, lambda: run_idiom(name, deep, *world, n))
            rec.step(sum(n.bodies.values()))
            eq([M.raw_t(t) for t in world[:3]] + [Payload.get(world[3])],
               want, f"{w}: operands and results while collecting")
            eq((n.bodies, n.ops()), (n0.bodies, n0.ops()),
               f"{w}: what the kernel executed")
            check_dump(dump, n, w)
            check_iters(cfg, got, n, w)
            rec.ok()
            rec.outcome(tuple(n.ops().items()))
    finally:
        T.reset()
        T.clean("c15i")
    rec.state(case[:-1])


def chk_cascade(case, rec):
    """several kernels in one session"""
    names, mode = case
    w = f"one session running {list(names)!r}"
    T.reset()
    try:
        progs = [PROGS[x] for x in names]
        ranks = sorted({c06.rid(r) for p in progs for r in p[3]})
        ns = [T.Count(ranks) for _ in progs]
        ops = [build(p) for p in progs]
        zs = [mk_out(p) for p in progs]
        want = []
        for p in progs:
            z = mk_out(p)
            execute(p, build(p), z, T.Count(ranks))
            want.append(out_raw(z))

        def run():
            for p, o, z, n in zip(progs, ops, zs, ns):
                execute(p, o, z, n)
        T.clean("c15c")
        cfg = [(r, t, mode) for r in ranks for t in T.TYPES]
        _, dump, got = T.session("c15c", cfg, run)
        eq([out_raw(z) for z in zs], want, f"{w}: outputs")
        tot = T.Count(ranks)
        for n in ns:
            tot.mul += n.mul
            tot.add += n.add
            tot.update += n.update
            for r in ranks:
                tot.bodies[r] += n.bodies[r]
        check_dump(dump, tot, w)
        check_iters(cfg, got, tot, w)
        rec.ok()
        rec.step(sum(tot.bodies.values()))
        rec.state(case)
    finally:
        T.reset()
        T.clean("c15c")


# ---------------------------------------------------------------- operators

def boxed(k, v):
    if k == "p":
        return Payload(v)
    if k == "e":
        return CoordPayload(3, Payload(v))
    return v


# name, needs boxed left, effect on (mul, add, update) given the old value
OPERATORS = {
    "+": lambda a, b: (a + b, (0, 1, 0)),
    "*": lambda a, b: (a * b, (1, 0, 0)),
    "-": lambda a, b: (a - b, (0, 0, 0)),
    "/": lambda a, b: (a / b, (0, 0, 0)),
    "+=": lambda a, b: (a + b, (0, 1 if a != 0 else 0, 1)),
    "*=": lambda a, b: (a * b, (1, 0, 1)),
    "<<=": lambda a, b: (b, (0, 0, 1)),
    "==": lambda a, b: (a == b, (0, 0, 0)),
    "<": lambda a, b: (a < b, (0, 0, 0)),
    ">=": lambda a, b: (a >= b, (0, 0, 0)),
}


def apply_op(name, x, y):
    if name == "+":
        return x + y
    if name == "*":
        return x * y
    if name == "-":
        return x - y
    if name == "/":
        return x / y
    if name == "+=":
        x += y
        return x
    if name == "*=":
        x *= y
        return x
    if name == "<<=":
        x <<= y
        return x
    if name == "==":
        return x == y
    if name == "<":
        return x < y
    return x >= y


def legal(name, kx, ky, b):
    if name in ("+=", "*=", "<<=") and kx == "s":
        return False
    if kx == "s" and ky == "s":
        return False
    if name == "/" and b == 0:
        return False
    if name == "<<=" and ky == "e":
        return False
    # a bare payload does not know how to combine with an element
    return not (kx == "p" and ky == "e")


def plain(x):
    if isinstance(x, CoordPayload):
        x = x.payload
    return Payload.get(x)


def chk_ops(case, rec):
    """a chain of operators on one accumulator"""
    start, kind, chain = case
    w = f"{kind}({start!r}) then {chain!r}"
    T.reset()
    try:
        for collect in (False, True):
            if collect:
                Metrics.beginCollect()
            x, val = boxed(kind, start), start
            tot = [0, 0, 0]
            for name, ky, b in chain:
                kx = "e" if isinstance(x, CoordPayload) else \
                    "p" if isinstance(x, Payload) else "s"
                if not legal(name, kx, ky, b):
                    continue
                want, inc = OPERATORS[name](val, b)
                res = apply_op(name, x, boxed(ky, b))
                rec.step()
                eq(plain(res), want, f"{w}: result of {name}"
                   f"{' while collecting' if collect else ''}")
                tot = [p + q for p, q in zip(tot, inc)]
                if name in ("+=", "*=", "<<="):
                    x, val = res, want
            if collect:
                Metrics.endCollect()
        dump = Metrics.dump()
        for op, want in zip(("mul", "add", "update"), tot):
            eq(Compute.numOps(dump, op), want, f"{w}: reported {op} count")
        rec.ok()
        rec.outcome(tuple(tot))
        rec.state(case)
    finally:
        T.reset()


# ---------------------------------------------------------------- sessions

A2 = ((0, ((0, 2), (2, 3))), (1, ((1, 4),)))
B2 = ((0, ((0, 5),)), (2, ((0, 7), (1, 6))))
E2 = ((0, ()), (1, ((0, 0),)))
D3 = (("k", 3), ("m", 2), ("n", 2))


def P(expr, specs, order, tiles=(), style="and", declared=True, fmt="C",
      rel=False):
    return (expr, D3, specs, tuple(order), tuple(tiles), rel, style, declared,
            fmt)


PROGS = {
    "matmul-mnk": P(("mn", ("mk", "kn")), (A2, B2), "mnk"),
    "matmul-kmn": P(("mn", ("mk", "kn")), (A2, B2), "kmn"),
    "matmul-lf": P(("mn", ("mk", "kn")), (A2, B2), "mkn", style="lf"),
    "dot": P(("", ("k", "k")), (((0, 2), (2, 3)), ((1, 1), (2, 5))), "k"),
    "copy-km": P(("km", ("mk",)), (A2,), "km"),
    "empty": P(("mn", ("mk", "kn")), ((), B2), "mkn"),
    "empty-inner": P(("mn", ("mk", "kn")), (E2, B2), "mkn"),
    "reduce": P(("", ("mk",)), (A2,), "mk"),
    "tiled": P(("m", ("mk", "k")), (A2, ((0, 1), (1, 2), (2, 3))),
               ("k1", "m", "k0"), (("k", 2),)),
}

HIST = list(PROGS) + ["abort-body", "abort-co", "unread", "match", "shape",
                      "named", "small-cache", "label", "incs", "nested-begin"]


class Stop(Exception):
    pass


SHORT = ("iter", "intersect_0", "intersect_1", "intersect_2", "populate_1",
         "populate_read_0", "populate_write_0")


def full_traces(prog, mode="f"):
    return tuple((c06.rid(r), t, mode) for r in prog[3] for t in SHORT)


def run_prog(prog, prefix, traces):
    ops = build(prog)
    z = mk_out(prog)
    n = T.Count([c06.rid(r) for r in prog[3]])
    _, dump, got = T.session(prefix, traces,
                             lambda: execute(prog, ops, z, n))
    return out_raw(z), dump, got, n


def perform(h, prefix):
    """one earlier session"""
    if h in PROGS:
        run_prog(PROGS[h], prefix, full_traces(PROGS[h]))
    elif h == "abort-body":
        # the kernel raises inside the innermost loop: no endCollect
        prog = PROGS["matmul-mnk"]
        a, b = build(prog)
        Metrics.beginCollect(prefix)
        for r, t, m in full_traces(prog):
            Metrics.trace(r, t)
        try:
            for m, (z_n, a_k) in mk_out(prog).getRoot() << a.getRoot():
                for n_, (z_, b_k) in z_n << b.getRoot():
                    for k, (x, y) in a_k & b_k:
                        z_ += x * y
                        raise Stop()
        except Stop:
            pass
    elif h == "abort-co":
        prog = PROGS["matmul-kmn"]
        a, b = build(prog)
        Metrics.beginCollect(prefix)
        Metrics.trace("K")
        Metrics.trace("K", "intersect_0", consumable=True)
        for k, (x, y) in a.getRoot() & b.getRoot():
            for m, v in x:
                break
            break
    elif h == "unread":
        prog = PROGS["dot"]
        a, b = build(prog)
        Metrics.beginCollect(prefix)
        Metrics.trace("K", "iter", consumable=True)
        for k, (x, y) in a.getRoot() & b.getRoot():
            pass
        try:
            Metrics.endCollect()
        except AssertionError:
            pass            # documented: consumable traces must be consumed
    elif h == "match":
        Metrics.beginCollect(prefix)
        Metrics.matchRanks("K", "M")
        Metrics.matchRanks("M", "N")
        Metrics.trace("M")
        Metrics.registerRank("K")
        Metrics.addUse("M", 4, 0)
        Metrics.incIter("M")
        Metrics.endCollect()
    elif h == "shape":
        Metrics.beginCollect(prefix)
        for r in "MNK":
            Metrics.associateShape(r, (5, 5))
        Metrics.trace("K")
        Metrics.registerRank("K")
        Metrics.addUse("K", (1, 2), 0)
        Metrics.endCollect()
    elif h == "named":
        # ranks registered in another order by an unrelated session
        Metrics.beginCollect(prefix)
        Metrics.trace("K")
        for r in ("N", "K", "J", "M"):
            Metrics.registerRank(r)
            Metrics.addUse(r, 7, 7)
            Metrics.incIter(r)
        Metrics.getLabel("M")
        Metrics.endCollect()
    elif h == "small-cache":
        Metrics.setNumCachedUses(2)
        run_prog(PROGS["matmul-mnk"], prefix, full_traces(PROGS["matmul-mnk"]))
        Metrics.setNumCachedUses(1000)
    elif h == "label":
        # labels taken, iteration never ended
        Metrics.beginCollect(prefix)
        Metrics.registerRank("K")
        for r in ("K", "M", "N", "M"):
            Metrics.getLabel(r)
        Metrics.incIter("K")
        Metrics.incCount("Compute", "payload_mul", 5)
    elif h == "incs":
        Metrics.beginCollect()
        x = Payload(3)
        x += 4
        x *= 2
        x + 1
        Metrics.endCollect()
    elif h == "nested-begin":
        Metrics.beginCollect(prefix)
        Metrics.trace("M", consumable=True)
        Metrics.beginCollect(prefix + "2")
        Metrics.trace("K")
        Metrics.registerRank("K")
        Metrics.addUse("K", 1, 1)


def fresh(target, prefix):
    """the target session in a process that ran nothing before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            d = os.path.join(os.environ["MC_SCRATCH"], f"fresh-{os.getpid()}")
            os.makedirs(d)
            os.chdir(d)
            prog = PROGS[target]
            z, dump, got, n = run_prog(prog, prefix, full_traces(prog))
            with os.fdopen(w, "wb") as f:
                pickle.dump((z, dump, got), f)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


REF = {}


def chk_sessions(case, rec):
    hist, target, mode = case
    w = f"{target} after {list(hist)!r}"
    prog = PROGS[target]
    try:
        T.reset()
        T.clean("c15s")
        for h in hist:
            perform(h, "c15s")
            rec.step()
        if mode == "warm":
            # the very same operands were used by a session before
            ops = build(prog)
            for _ in range(2):
                z = mk_out(prog)
                n = T.Count([c06.rid(r) for r in prog[3]])
                _, dump, got = T.session("c15s", full_traces(prog),
                                         lambda: execute(prog, ops, z, n))
            zr = out_raw(z)
        else:
            zr, dump, got, n = run_prog(prog, "c15s", full_traces(prog, mode))
        require(REF[target] is not None, "{}: the kernel fails in a fresh "
                "process", target)
        z0, dump0, got0 = REF[target]
        eq(zr, z0, f"{w}: output")
        eq(dump, dump0, f"{w}: dump")
        for key, g in got.items():
            if "f" in g:
                eq(g["f"], got0[key]["f"], f"{w}: trace {key}")
            if "m" in g:
                eq(T.csv(g["m"]), got0[key]["f"],
                   f"{w}: consumable trace {key}")
        check_dump(dump, n, w)
        check_iters([(r, "iter", "f" if mode == "warm" else mode)
                     for r in n.bodies], got, n, w)
        rec.ok()
        rec.outcome(tuple(g.get("f") for g in got.values()))
        rec.state(case)
    finally:
        T.reset()
        T.clean("c15s")


# ---------------------------------------------------------------- families

def families(tier):
    q = tier == "quick"
    for t in PROGS:
        if t not in REF:
            REF[t] = fresh(t, "c15s")

    c06fams = {f.name: f for f in c06.families("quick")}

    def programs(names, step, cfg, inside=(False,)):
        i = 0
        for name in names:
            for c in c06fams[name].gen():
                i += 1
                if i % step:
                    continue
                ranks = [c06.rid(r) for r in c[3]]
                for ins in inside:
                    yield (c, tuple(cfg(ranks, i)), ins)

    def some(ranks, i):
        """none, everything, and one of the other sets in turn"""
        cs = configs(ranks, True)
        return cs[:2] + [cs[2 + i % (len(cs) - 2)]]

    def f_small():
        yield from programs(["one-index"], 48 if q else 3,
                            lambda r, i: configs(r, True))

    def f_two():
        yield from programs(["two-index", "two-index-tiled"], 10 if q else 1,
                            some)

    def f_three():
        yield from programs(["three-index", "three-index-tiled"],
                            16 if q else 1, some)

    def f_formats():
        yield from programs(["formats"], 3 if q else 1, some)

    def f_large():
        yield from programs(["large"], 9 if q else 1, some)

    def f_inside():
        yield from programs(["two-index-tiled", "one-index", "formats"],
                            30 if q else 3, lambda r, i: configs(r, False)[:3],
                            (True,))

    def f_idioms():
        v = {1: lambda pt: 2 + pt[0], 2: lambda pt: 3 - pt[-1]}
        one = [M.specs((3,), v[1]), M.specs((3,), v[2])]
        two = [M.specs((2, 3), v[1]), M.specs((2, 3), v[2])]
        ys = [(), ((0, 9), (2, 8)), ((1, 7),), ((0, 0), (2, 1))]
        cs = configs(["K"], True)
        i = 0
        for name in T.IDIOMS:
            for fmt in "CU":
                i = 0
                for sa in one[0]:
                    for sb in one[1]:
                        for sy in ys if "pop" in name or "ref" in name \
                                else ys[:1]:
                            i += 1
                            if q and i % 11:
                                continue
                            yield (name, sa, sb, sy, False, fmt,
                                   tuple(cs[:2] + [cs[2 + i % (len(cs) - 2)]]))
                i = 0
                for sa in two[0]:
                    for sb in two[1]:
                        i += 1
                        if i % (3449 if q else 509):
                            continue
                        yield (name, sa, sb, (), True, fmt,
                               tuple(configs(["M", "K"], False)))

    def f_cascade():
        for k in (1, 2, 3):
            for names in itertools.product(PROGS, repeat=k):
                for mode in "mf":
                    if k == 3 and (mode == "f" or q and names[0] > names[1]):
                        continue
                    yield (names, mode)

    def f_ops():
        vals = (0, 1, -2) if q else (0, 1, -2, 0.5)
        steps = [(name, k, v) for name in OPERATORS for k in "spe"
                 for v in vals if legal(name, "p", k, v) or
                 legal(name, "e", k, v) or legal(name, "s", k, v)]
        for start in vals:
            for kind in "spe":
                for n in (1, 2):
                    for chain in itertools.product(steps, repeat=n):
                        yield (start, kind, chain)

    def f_sessions():
        for target in PROGS:
            for mode in ("f", "m"):
                for h in HIST:
                    yield ((h,), target, mode)
                if mode == "f":
                    for hs in itertools.product(HIST, repeat=2):
                        yield (hs, target, mode)
                    if not q:
                        for hs in itertools.product(HIST, repeat=3):
                            yield (hs, target, mode)
            yield ((), target, "f")
            yield ((), target, "warm")
            for h in HIST:
                yield ((h,), target, "warm")

    def part(n, m=1):
        k = n if q else m
        return f"; every {k}th program of the enumeration" if k > 1 else ""

    return [
        Family("one-index", f_small, chk, "C06 programs over one index x every "
               "registered set: no trace, every type, iteration traces of "
               "every subset of ranks, each kind of trace of every subset" +
               part(48, 3)),
        Family("two-index", f_two, chk, "C06 programs over two indices, "
               "untiled and tiled x no trace, every trace, one other set" +
               part(10)),
        Family("three-index", f_three, chk, "the same over three indices" +
               part(16)),
        Family("formats", f_formats, chk, "uncompressed operands, outputs of "
               "estimated shape" + part(3)),
        Family("large", f_large, chk, "the C06 programs over large extents (up "
               "to 131)" + part(9)),
        Family("inside", f_inside, chk, "operands built, split and swizzled "
               "while collecting: results and operation counts" +
               part(30, 3)),
        Family("idioms", f_idioms, chk_idiom, f"{len(T.IDIOMS)} loop idioms "
               "(co-iteration, union, difference, dense, by reference, "
               "projection, populate into an output that holds elements) over "
               "operand fibers of extent 3, alone (quick: every 11th pair) or "
               f"below a rank M (every {3449 if q else 509}th pair of trees)"),
        Family("cascade", f_cascade, chk_cascade, "up to 3 kernels in one "
               "session"),
        Family("operators", f_ops, chk_ops, "all chains of up to 2 operators "
               "(10 operators x scalar, payload, element right operands x "
               "values 0, 1, -2) on scalars, payloads and elements"),
        Family("sessions", f_sessions, chk_sessions, "9 target kernels x all "
               "sequences of up to 2 (thorough 3) of 19 earlier sessions, "
               "files and consumable traces, reused operands"),
    ]
