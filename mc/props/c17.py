"""C17 - buffer traffic models charge exactly what their policy implies."""

import copy
import itertools
import os
from functools import lru_cache

from fibertree import Metrics, Tensor
from fibertree.model.format import Format
from fibertree.model.traffic import Traffic

from .. import model as M
from .. import trace as T
from ..core import Family, Violation, eq, require
from . import c06, c16

RULE = ("Every small read/write trace of the bound (all placements of reads, "
        "writes and read-writes on all positions, 1-3 loop ranks, reused and "
        "non-reused tensors, insertion staging rows, two bindings sharing the "
        "buffer) is written to files and given to the buffet model (every "
        "evict-on) and the cache model (every capacity from 0 to unbounded). "
        "Fills and write-backs must equal an independent computation: for the "
        "buffet the set of (line, window) pairs of the rows, for the cache a "
        "furthest-next-use policy on the merged access sequence, whose fills "
        "are themselves compared with the minimum over all replacement "
        "decisions (exhaustive search) on read traces. Bounds, monotonicity "
        "in the capacity, invariance under moving positions inside lines, "
        "unchanged inputs and the directory listing are checked on every "
        "call; filterTrace and the trace combination are compared with their "
        "definition on all small pairs of traces; traces of real kernels go "
        "through the same oracle.")
ASSUMPTIONS = [
    "a missing access entry of the traffic dictionary is zero",
    "the count of overflows is not fixed by the property (only that there is "
    "none when the capacity holds all lines)",
    "in the cache, a line of the insertion staging area stays in the buffer "
    "from its first to its last access, even when it does not fit (it can "
    "never be written back); exact counts are required when no line holds "
    "both staged and regular positions",
    "the filter trace has at least as many ranks as the input and both are in "
    "the order of the loop nest",
    "evict-on is root or a rank outside of the bound rank",
]

INF = 10 ** 6


# ---------------------------------------------------------------- traces

def write_trace(fn, ranks, rows):
    with open(fn, "w") as f:
        f.write(",".join([r + "_pos" for r in ranks] + list(ranks) +
                         ["fiber_pos"]) + "\n")
        for stamp, coords, pos in rows:
            f.write(",".join(str(x) for x in (*stamp, *coords, pos)) + "\n")


def merge(reads, writes):
    """stable merge by stamp, reads first"""
    both = [(r[0], 0, i, r, False) for i, r in enumerate(reads)] + \
        [(w[0], 1, i, w, True) for i, w in enumerate(writes)]
    both.sort(key=lambda x: x[:3])
    return [(r, w) for _, _, _, r, w in both]


class Key:
    """one binding and its accesses"""

    def __init__(self, tensor, rank, type_, evict, order, tensor_ranks, where,
                 shape, epl, reads, writes):
        self.tensor, self.rank, self.type, self.evict = tensor, rank, type_, evict
        self.writable = writes is not None
        depth = order.index(where[rank]) + 1
        mask = [r in [where[x] for x in tensor_ranks] for r in order[:depth]]
        self.depth = depth
        self.cut = 0 if evict == "root" else order.index(where[evict]) + 1
        self.acc = []
        for (stamp, coords, pos), w in merge(reads or [], writes or []):
            fiber = [c for c, m in zip(coords, mask) if m][:-1]
            line = (*fiber, pos // epl)
            staged = self.writable and pos >= shape
            self.acc.append((stamp, line, w, staged))


def buffet(key):
    """(fills, write-backs) in lines"""
    first = {}
    dirty = set()
    for stamp, line, w, staged in key.acc:
        pair = (line, stamp[:key.cut])
        first.setdefault(pair, w)
        if w and not staged:
            dirty.add(pair)
    return sum(not w for w in first.values()), len(dirty)


def sequence(keys, n):
    """all accesses in the order they occur: (key index, line, write, staged)
    and the iteration stamp of each"""
    out = []
    for i, k in enumerate(keys):
        for j, (stamp, line, w, staged) in enumerate(k.acc):
            out.append((stamp + (-1,) * (n - len(stamp)), i, j, line, w, staged))
    out.sort(key=lambda x: x[:3])
    return [(i, line, w, staged) for _, i, _, line, w, staged in out], \
        [x[:2] for x in out]


def next_uses(seq):
    nxt = [INF] * len(seq)
    seen = {}
    for t in range(len(seq) - 1, -1, -1):
        item = seq[t][:2]
        nxt[t] = seen.get(item, INF)
        seen[item] = t
    return nxt


def bump(counts, i):
    return counts[:i] + (counts[i] + 1,) + counts[i + 1:]


def policies(seq, lines, nkeys, when):
    """(fills, write-backs) per key of a furthest-next-use cache of the given
    number of lines with bypass, staged lines pinned; when maps the index of
    an access to its time: accesses at the same time are not ordered, so every
    choice among them is followed"""
    nxt = next_uses(seq)
    zero = (0,) * nkeys
    states = {(frozenset(), zero, zero)}
    for t, (i, line, w, staged) in enumerate(seq):
        item = (i, line)
        new = set()
        for cache, fills, backs in states:
            mine = [e for e in cache if e[0] == item]
            dirty = w and not staged
            out = []        # (cache without the item, pinned, dirty, keep)
            if mine:
                e = mine[0]
                out.append((cache - {e}, e[2], e[3] or dirty, backs, True))
            else:
                if not w:
                    fills = bump(fills, i)
                if nxt[t] == INF or len(cache) < lines:
                    out.append((cache, staged, dirty, backs, True))
                else:
                    rest = [e for e in cache if not e[2]]
                    far = max((when(e[1]) for e in rest), default=None)
                    if far is not None and (staged or when(nxt[t]) <= far):
                        for e in rest:
                            if when(e[1]) == far:
                                out.append((cache - {e}, staged, dirty,
                                            bump(backs, e[0][0]) if e[3]
                                            else backs, True))
                    if staged and not rest:
                        out.append((cache, True, dirty, backs, True))
                    if not staged and (not rest or when(nxt[t]) >= far):
                        out.append((cache, False, dirty, backs, False))
            for c, pin, d, bk, keep in out:
                if nxt[t] == INF or not keep:
                    new.add((c, fills, bump(bk, i) if d else bk))
                else:
                    new.add((c | {(item, nxt[t], pin, d)}, fills, bk))
        states = new
    return {s[1:] for s in states}


def optimum(seq, lines):
    """least number of fills over all replacement decisions (with bypass)"""
    items = [s[:2] for s in seq]

    @lru_cache(None)
    def best(t, cache):
        if t == len(items):
            return 0
        it = items[t]
        if it in cache:
            return best(t + 1, cache)
        res = best(t + 1, cache)                       # bypass
        if len(cache) < lines:
            res = min(res, best(t + 1, cache | {it}))
        else:
            for x in cache:
                res = min(res, best(t + 1, (cache - {x}) | {it}))
        return res + 1
    return best(0, frozenset())


# ---------------------------------------------------------------- running

def listing():
    out = {}
    for d, _, files in os.walk("."):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def total(traffic, tensor, access):
    return traffic.get(tensor, {}).get(access, 0)


def clear():
    for f in os.listdir("."):
        if f.endswith(".csv"):
            os.remove(f)


def evaluate(case, rec, kinds=("buffet", "cache"), opt=False, caps=None,
             nudge=True):
    """case: (order, tensors, keys, line, mapping)
       tensors: name -> (ranks, shape, (cbits, pbits), layout)
       keys: (tensor, rank, type, evict-on, reads or None, writes or None)"""
    order, tensors, keyspec, line_sz, mapping = case
    clear()
    formats = {}
    for name, (ranks, shape, bits, layout) in tensors.items():
        t = Tensor(rank_ids=list(ranks), shape=list(shape), name=name)
        formats[name] = Format(t, {r: {"cbits": bits[0], "pbits": bits[1],
                                       "layout": layout} for r in ranks})
    where = {r: r for r in order}
    where.update(mapping)
    keys, fns, bindings = [], {}, []
    for name, rank, type_, evict, reads, writes in keyspec:
        ranks, shape, bits, layout = tensors[name]
        epl = line_sz // {"elem": sum(bits), "coord": bits[0],
                          "payload": bits[1]}[type_]
        depth = order.index(where[rank]) + 1
        for acc, rows in (("read", reads), ("write", writes)):
            if rows is not None:
                fn = f"{name}-{rank}-{type_}-{acc}.csv"
                write_trace(fn, order[:depth], rows)
                fns[name, rank, type_, acc] = fn
        bindings.append({"tensor": name, "rank": rank, "type": type_,
                         "evict-on": evict})
        keys.append(Key(name, rank, type_, evict, order, ranks,
                        {r: where.get(r, r) for r in (*ranks, *order)},
                        shape[list(ranks).index(rank)], epl, reads, writes))
    run(order, keys, bindings, formats, fns, line_sz, mapping, rec, kinds, opt,
        caps, repr(case))
    if nudge:
        # the position inside the line does not matter
        moved = []
        change = False
        for k, (name, rank, type_, evict, reads, writes) in zip(keys, keyspec):
            ranks, shape, bits, layout = tensors[name]
            epl = line_sz // {"elem": sum(bits), "coord": bits[0],
                              "payload": bits[1]}[type_]
            sh = shape[list(ranks).index(rank)]
            for acc, rows in (("read", reads), ("write", writes)):
                if rows is None:
                    continue
                new = []
                for stamp, coords, pos in rows:
                    p = pos // epl * epl
                    if (pos >= sh) == (p >= sh):
                        change = change or p != pos
                        pos = p
                    new.append((stamp, coords, pos))
                write_trace(f"{name}-{rank}-{type_}-{acc}.csv",
                            order[:k.depth], new)
        if change:
            run(order, keys, bindings, formats, fns, line_sz, mapping, rec,
                kinds, False, caps, repr(case) + " (positions moved to the "
                "start of their lines)")


def run(order, keys, bindings, formats, fns, line_sz, mapping, rec, kinds, opt,
        caps, w):
    before = listing()
    # bindings are simulated outermost rank first, in the order given
    idx = sorted(range(len(keys)), key=lambda i: keys[i].depth)
    keys = [keys[i] for i in idx]
    seq, times = sequence(keys, len(order))
    lines = len({x[:2] for x in seq})
    mixed = any(len({st for _, li, _, st in k.acc if li == x}) > 1
                for k in keys for x in {a[1] for a in k.acc})
    # two lines of a binding used at the same iteration stamp
    tied = len({(x, s[:2]) for x, s in zip(times, seq)}) > len(set(times))
    if "buffet" in kinds:
        fills, backs = {}, {}
        for k in keys:
            f, b = buffet(k)
            fills[k.tensor] = fills.get(k.tensor, 0) + f
            backs[k.tensor] = backs.get(k.tensor, 0) + b
        for cap in ((0, lines) if caps is None else caps):
            traffic, over = call(Traffic.buffetTraffic, bindings, formats, fns,
                                 cap * line_sz, line_sz, mapping)
            rec.step()
            t = f"{w}: buffet of {cap} lines"
            for name in formats:
                eq(total(traffic, name, "read"),
                   fills.get(name, 0) * line_sz, f"{t}: fill bits of {name}")
                eq(total(traffic, name, "write"),
                   backs.get(name, 0) * line_sz,
                   f"{t}: write-back bits of {name}")
            if cap >= lines:
                eq(over, 0, f"{t}: overflows with room for all {lines} lines")
            rec.ok()
            rec.outcome((tuple(sorted(fills.items())),
                         tuple(sorted(backs.items()))))
    if "cache" in kinds:
        prev = None
        plain = [{k: v for k, v in b.items() if k != "evict-on"}
                 for b in bindings]
        for cap in (range(lines + 2) if caps is None else caps):
            bits = cap * line_sz
            if cap == lines + 1:
                bits = 10 ** 9
            elif cap and line_sz > 1:
                bits += line_sz - 1       # the last line does not fit
            traffic, over = call(Traffic.cacheTraffic, plain, formats, fns,
                                 bits, line_sz, mapping)
            rec.step()
            t = f"{w}: cache of {bits} bits"
            (fills, backs), = policies(seq, cap, len(keys), lambda x: x)
            if opt:
                eq(sum(fills), optimum(seq, cap),
                   f"{t}: (self-check) policy against exhaustive search")
            names = sorted(formats)
            per = {x: [i for i, k in enumerate(keys) if k.tensor == x]
                   for x in names}
            reads = {x: total(traffic, x, "read") for x in names}
            writes = {x: total(traffic, x, "write") for x in names}

            def vec(fb):
                return tuple(sum(v[i] for i in per[x]) * line_sz
                             for v in fb for x in names)
            got = (*reads.values(), *writes.values())
            exp = vec((fills, backs))
            if not mixed and got != exp:
                sig = None
                if tied and got in {vec(x) for x in policies(
                        seq, cap, len(keys), lambda x: times[x])}:
                    sig = "tied-next-use"
                raise Violation(f"{t}: fill bits {reads} and write-back bits "
                                f"{writes}, expected {exp}", sig)
            for name in names:
                got_r, got_w = reads[name], writes[name]
                acc = [x for x in seq if x[0] in per[name]]
                nr = sum(not a[2] for a in acc)
                nw = sum(a[2] and not a[3] for a in acc)
                only = {a[:2] for a in acc} - {a[:2] for a in acc if a[2]}
                require(len(only) * line_sz <= got_r <= nr * line_sz,
                        "{}: fill bits {} of {} outside of the bounds "
                        "({} lines read only, {} reads)", t, got_r, name,
                        len(only), nr)
                wl = {a[:2] for a in acc if a[2] and not a[3]}
                require(len(wl) * line_sz <= got_w <= nw * line_sz,
                        "{}: write-back bits {} of {} outside of the bounds "
                        "({} lines written, {} writes)", t, got_w, name,
                        len(wl), nw)
            if prev is not None and not mixed:
                require(sum(reads.values()) <= prev, "{}: fill bits grow from "
                        "{} to {} with the capacity", t, prev,
                        sum(reads.values()))
            prev = sum(reads.values())
            if cap >= lines:
                eq(over, 0, f"{t}: overflows with room for all {lines} lines")
            rec.ok()
            rec.outcome((fills, backs, cap))
    after = listing()
    require(after == before, "{}: files changed: {} before, {} after", w,
            sorted(before), sorted(after))
    rec.state(tuple(seq))


def call(fn, bindings, formats, fns, cap, line_sz, mapping):
    b, m = copy.deepcopy(bindings), dict(mapping)
    if m or len(fns) % 2:
        res = fn(b, formats, dict(fns), cap, line_sz, loop_ranks=m)
    else:
        res = fn(b, formats, dict(fns), cap, line_sz)
    return res


# ---------------------------------------------------------------- families

def slots_rows(stamps, coords, picks):
    """picks: per slot None or a tuple of (kind, pos) in access order"""
    reads, writes = [], []
    for s, c, p in zip(stamps, coords, picks):
        for kind, pos in p or ():
            (reads if kind == "r" else writes).append((s, c, pos))
    return reads, writes


def options(poss, kinds):
    out = [None]
    for p in poss:
        for k in kinds:
            if k == "rw":
                out.append((("r", p), ("w", p)))
            else:
                out.append(((k, p),))
    return out


def ck_one(case, rec):
    """one loop rank, one tensor"""
    picks, epl, kind = case
    n = len(picks)
    stamps = [(i,) for i in range(n)]
    coords = [(2 * i - 1,) for i in range(n)]
    reads, writes = slots_rows(stamps, coords, picks)
    if kind == "r":
        writes = None
    elif kind == "w":
        reads = None
    evaluate((("K",), {"A": (("K",), (8,), (3, 5), "interleaved")},
              [("A", "K", "elem", "root", reads, writes)], 8 * epl, {}), rec,
             opt=kind == "r", nudge=epl > 1)


def gen_one(n_read, n_mix, npos, n_rw):
    ro = options(range(npos), ["r"])
    for epl in (1, 2):
        for picks in itertools.product(ro[1:], repeat=n_read):
            # positions are interchangeable up to the line they are on
            yield picks, epl, "r"
        for picks in itertools.product(options(range(3), ["w"])[1:],
                                       repeat=n_mix):
            yield picks, epl, "w"
        for picks in itertools.product(options(range(3), ["r", "w", "rw"]),
                                       repeat=n_rw):
            yield picks, epl, "rw"


NESTS = {
    # name: (order, per-rank iterations, tensor ranks, bound rank, evict-ons)
    "reuse": (("M", "K"), ("K",), "K", ("root", "M")),
    "own": (("M", "K"), ("M", "K"), "K", ("root", "M")),
    "outer": (("M", "K"), ("M", "K"), "M", ("root",)),
    "stream": (("K", "M"), ("M", "K"), "M", ("root", "K")),
}


def ck_nest(case, rec):
    """two loop ranks"""
    name, sizes, picks, epl, kind = case
    order, ranks, rank, evicts = NESTS[name]
    depth = order.index(rank) + 1
    its = list(itertools.product(*(range(s) for s in sizes[:depth])))
    stamps = its
    coords = [tuple(2 * x - 1 for x in s) for s in its]
    reads, writes = slots_rows(stamps, coords, picks)
    if kind == "r":
        writes = None
    for ev in evicts:
        evaluate((order, {"A": (ranks, (6,) * len(ranks), (3, 5),
                                "interleaved")},
                  [("A", rank, "elem", ev, reads, writes)], 8 * epl, {}), rec,
                 kinds=("buffet", "cache") if ev == "root" else ("buffet",),
                 opt=kind == "r", nudge=False)


def gen_nest(sizes, npos, kinds, names=None):
    for name, (order, ranks, rank, _) in NESTS.items():
        if names and name not in names:
            continue
        depth = order.index(rank) + 1
        n = 1
        for s in sizes[:depth]:
            n *= s
        for kind, ks in kinds:
            for picks in itertools.product(options(range(npos), ks), repeat=n):
                yield name, sizes, picks, 1, kind
    for picks in itertools.product(options(range(4), ["r", "w"]), repeat=4):
        yield "reuse", (2, 2), picks, 2, "rw"


def ck_nest3(case, rec):
    """three loop ranks M, N, K"""
    ranks, picks, kind, epl = case
    order = ("M", "N", "K")
    its = list(itertools.product(range(2), repeat=3))
    coords = [(x[0], x[1] + 1, 2 * x[2]) for x in its]
    reads, writes = slots_rows(its, coords, picks)
    if kind == "r":
        writes = None
    for ev in ("root", "M", "N"):
        evaluate((order, {"A": (ranks, (6,) * len(ranks), (8, 8), "contiguous")},
                  [("A", "K", "payload", ev, reads, writes)], 8 * epl, {}), rec,
                 kinds=("buffet", "cache") if ev == "root" else ("buffet",),
                 opt=False, nudge=False)


def gen_nest3(full):
    for ranks in (("K",), ("N", "K"), ("M", "K"), ("M", "N", "K")):
        for picks in itertools.product([None, (("r", 0),), (("r", 1),)],
                                       repeat=8 if full else 6):
            yield ranks, picks + (None,) * (8 - len(picks)) if full else \
                (picks[0], picks[1], None, picks[2], picks[3], picks[4],
                 picks[5], None), "r", 1
        for picks in itertools.product([None, (("r", 0),), (("w", 0),),
                                        (("w", 1),)], repeat=5 if full else 4):
            yield ranks, (picks + picks)[:8] if full else (
                picks[0], picks[1], picks[2], None, picks[3], None, picks[1],
                picks[0]), "rw", 1


def ck_two(case, rec):
    """two bindings sharing the buffer"""
    layout, pa, pb, epl = case
    if layout == "tensors":         # same loop, two tensors
        order = ("K",)
        st = [(i,) for i in range(len(pa))]
        ra, wa = slots_rows(st, st, pa)
        rb, wb = slots_rows(st, st, pb)
        tensors = {"A": (("K",), (3,), (3, 5), "interleaved"),
                   "B": (("K",), (4,), (3, 5), "interleaved")}
        keys = [("A", "K", "elem", "root", ra, wa),
                ("B", "K", "elem", "root", rb, wb)]
    elif layout == "types":         # coordinates and payloads of one tensor
        order = ("K",)
        st = [(i,) for i in range(len(pa))]
        ra, wa = slots_rows(st, st, pa)
        rb, wb = slots_rows(st, st, pb)
        tensors = {"A": (("K",), (3,), (4, 8), "contiguous")}
        keys = [("A", "K", "coord", "root", ra, wa),
                ("A", "K", "payload", "root", rb, wb)]
    elif layout == "ranks":         # two ranks of one tensor, listed inside out
        order = ("M", "K")
        so = [(i,) for i in range(2)]
        si = list(itertools.product(range(2), repeat=2))
        ra, wa = slots_rows(so, so, pa)
        rb, wb = slots_rows(si, si, pb)
        tensors = {"A": (("M", "K"), (2, 3), (3, 5), "interleaved")}
        keys = [("A", "K", "elem", "M", rb, wb),
                ("A", "M", "elem", "root", ra, wa)]
    else:                           # an outer tensor and a reused inner one
        order = ("M", "K")
        so = [(i,) for i in range(2)]
        si = list(itertools.product(range(2), repeat=2))
        ra, wa = slots_rows(so, so, pa)
        rb, wb = slots_rows(si, si, pb)
        tensors = {"Z": (("M",), (2,), (3, 5), "interleaved"),
                   "B": (("K",), (3,), (8, 0), "interleaved")}
        keys = [("Z", "M", "elem", "root", ra, wa),
                ("B", "K", "elem", "M" if len(pa) % 2 else "root", rb, wb)]
    evaluate((order, tensors, keys, 8 * epl, {}), rec, nudge=False)


def gen_two(full):
    op = options((0, 1), ["r", "w"])
    for layout in ("tensors", "types"):
        for pa in itertools.product(op, repeat=3):
            for pb in itertools.product(op if full else op[:3], repeat=3):
                yield layout, pa, pb, 1
    for layout in ("ranks", "levels"):
        for pa in itertools.product(op, repeat=2):
            for pb in itertools.product(op if full else op[:3] + op[4:],
                                        repeat=4 if full else 3):
                pb += (pb[0],) * (4 - len(pb))
                yield layout, pa, pb, 1


def ck_staged(case, rec):
    """rows of the insertion staging area, and several rows per iteration"""
    rows, epl, evict, mapping = case
    order = ("M", "K")
    st = [(0, 0), (0, 1), (1, 0), (1, 1)]
    reads, writes = [], []
    for slot, acc in rows:
        for kind, pos in acc:
            (reads if kind == "r" else writes).append((st[slot], st[slot], pos))
    mp = {"Q": "K"} if mapping else {}
    rank = "Q" if mapping else "K"
    other = [(x, x, 2) for x in st]
    zk = ("Z", rank, "elem", evict, reads, writes)
    bk = ("B", "K", "elem", "root", other, None)
    for keys in ([zk, ("A", "M", "elem", "root", [((0,), (0,), 0),
                                                  ((1,), (1,), 0)], None)],
                 [zk, bk], [bk, zk]):
        evaluate((order, {"Z": ((rank,), (2,), (3, 5), "interleaved"),
                          "A": (("M",), (9,), (3, 5), "interleaved"),
                          "B": (("K",), (9,), (3, 5), "interleaved")},
                  keys, 8 * epl, mp), rec, nudge=False,
                 kinds=("buffet", "cache") if evict == "root" else ("buffet",))


def gen_staged(full):
    acts = [(), (("w", 0),), (("w", 2),), (("r", 2),), (("w", 1), ("w", 2)),
            (("r", 2), ("w", 0)), (("w", 3), ("r", 0)),
            (("r", 0), ("r", 1)), (("r", 2), ("r", 3), ("w", 1), ("w", 0))]
    if not full:
        del acts[6:8]
    for picks in itertools.product(acts, repeat=4):
        rows = tuple(enumerate(picks))
        if not full and picks[0] and picks[3]:
            continue
        for evict in ("root", "M"):
            yield rows, 1, evict, False
        if picks[3] == ():
            yield rows, 2, "root", False
            yield rows, 1, "root", True


# ------------------------------------------------- filtering and combination

def ck_filter(case, rec):
    nin, rows, fil, nfil, types = case
    clear()
    ranks = ("M", "N", "K")
    fin = [((i,) * nin, p, i) for i, p in enumerate(rows)]
    write_trace("in.csv", ranks[:nin], fin)
    write_trace("fil.csv", ranks[:nfil], [((i,) * nfil, p, 0)
                                          for i, p in enumerate(fil)])
    before = listing()
    Traffic.filterTrace("in.csv", "fil.csv", "out.csv")
    rec.step()
    keep = {p[:nin] for p in fil}
    want = [r for r in fin if r[1] in keep]
    with open("out.csv") as f:
        got = f.read()
    write_trace("want.csv", ranks[:nin], want)
    with open("want.csv") as f:
        exp = f.read()
    os.remove("want.csv")
    os.remove("out.csv")
    eq(got.splitlines(), exp.splitlines(), f"{case}: filtered trace")
    require(listing() == before, "{}: files changed", case)
    rec.state(case)
    rec.outcome(len(want))
    rec.ok()


def sorted_lists(points, n, mult):
    for counts in itertools.product(range(mult + 1), repeat=len(points)):
        if sum(counts) <= n:
            yield tuple(p for p, c in zip(points, counts) for _ in range(c))


def gen_filter(full):
    p1 = [(c,) for c in (0, 1, 2, 10)]
    p2 = [(a, b) for a in (0, 1) for b in (0, 1, 2)]
    p3 = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    for rows in sorted_lists(p1, 6, 2):
        for fil in sorted_lists(p1, 6, 2):
            yield 1, rows, fil, 1, None
        for fil in sorted_lists([p for p in p2] + [(2, 0), (10, 1)], 4, 1):
            yield 1, rows, fil, 2, None
    for rows in sorted_lists(p2, 4, 2):
        for fil in sorted_lists(p2, 6 if full else 3, 2 if full else 1):
            yield 2, rows, fil, 2, None
    for rows in sorted_lists(p2, 3, 2):
        for fil in sorted_lists(p3, 8 if full else 3, 1):
            yield 2, rows, fil, 3, None


def ck_combine(case, rec):
    """the combination used by both models"""
    reads, writes = case
    clear()
    args = {}
    for name, rows in (("read", reads), ("write", writes)):
        if rows is not None:
            write_trace(name + ".csv", ("M", "K"),
                        [(s, (s[0] + 1, s[1] + 1), i)
                         for i, s in enumerate(rows)])
            args[name + "_fn"] = name + ".csv"
    Traffic._combineTraces(comb_fn="comb.csv", **args)
    rec.step()
    with open("comb.csv") as f:
        got = f.read().splitlines()
    want = ["M_pos,K_pos,M,K,fiber_pos,is_write"]
    mk = lambda rows: [(s, (s[0] + 1, s[1] + 1), i)
                       for i, s in enumerate(rows or [])]
    for (s, c, p), w in merge(mk(reads), mk(writes)):
        want.append(",".join(str(x) for x in (*s, *c, p, w)))
    eq(got, want, f"{case}: combined trace")
    rec.state(case)
    rec.outcome(len(want))
    rec.ok()


def gen_combine(full):
    pts = [(0, 0), (0, 1), (1, 0), (2, 10)]
    lists = list(sorted_lists(pts, 4 if full else 3, 2))
    for r in lists:
        yield r, None
        yield None, r
        for w in lists:
            yield r, w


# ---------------------------------------------------------------- mapping

def ck_mapping(case, rec):
    """loop ranks with other names than the ranks of the tensors, twice with
    the same dictionary"""
    order, mapping, picks = case
    st = list(itertools.product(range(2), repeat=2))
    ra, wa = slots_rows(st, st, picks)
    so = [(0,), (1,)]
    # the rank whose loop is the outer one
    top = {b: a for a, b in mapping}.get(order[0], order[0])
    evaluate((order, {"A": (("P", "Q"), (3, 3), (3, 5), "interleaved"),
                      "B": ((top,), (3,), (3, 5), "interleaved")},
              [("A", "Q", "elem", "P", ra, wa),
               ("B", top, "elem", "root", [(s, s, s[0]) for s in so],
                None)], 8, dict(mapping)), rec)


def gen_mapping(full):
    op = options((0, 1), ["r", "w", "rw"] if full else ["r", "rw"])
    for order, mapping in ((("M", "K"), (("P", "M"), ("Q", "K"))),
                           (("P", "K"), (("Q", "K"),)),
                           (("Q", "P"), (("P", "Q"), ("Q", "P"))),
                           (("P0", "Q0"), (("P", "P0"), ("Q", "Q0")))):
        for picks in itertools.product(op, repeat=4):
            yield order, mapping, picks


# ---------------------------------------------------------------- kernels

def kernels():
    """(name, loop order, function(prefix) -> [(tensor, shape, ranks, key
    specs)]) using the public collection API"""
    return None


def ck_kernel(case, rec):
    """Z[...] = A * B run while collecting; its traces, as written by Metrics,
    go through both models"""
    kind, sa, sb, sz, line = case
    clear()
    T.reset()
    n = 3
    order = ("M", "K")
    Metrics.beginCollect("k")
    if kind == "spmv":          # z[m] = a[m, k] b[k]
        a = M.mk_tensor(sa, 2, (2, n), 0, ["M", "K"])
        b = M.mk_tensor(sb, 1, (n,), 0, ["K"])
        z = Tensor(rank_ids=["M"], shape=[2])
        for r, t in (("M", "populate_read_0"), ("M", "populate_write_0"),
                     ("M", "populate_1"), ("K", "intersect_0"),
                     ("K", "intersect_1")):
            Metrics.trace(r, type_=t)
        for m, (zr, ak) in z.getRoot() << a.getRoot():
            for k, (x, y) in ak & b.getRoot():
                zr += x * y
        spec = [("Z", "M", "root", "k-M-populate_read_0.csv",
                 "k-M-populate_write_0.csv"),
                ("A", "M", "root", "k-M-populate_1.csv", None),
                ("A", "K", "M", "k-K-intersect_0.csv", None),
                ("B", "K", "root", "k-K-intersect_1.csv", None)]
        shapes = {"Z": (("M",), (2,)), "A": (("M", "K"), (2, n)),
                  "B": (("K",), (n,))}
    else:                       # z[k] += a[m, k] (columns inserted)
        a = M.mk_tensor(sa, 2, (2, n), 0, ["M", "K"])
        z = M.mk_tensor(sz, 1, (n,), 0, ["K"])
        for r, t in (("M", "iter"), ("K", "populate_read_0"),
                     ("K", "populate_write_0"), ("K", "populate_1")):
            Metrics.trace(r, type_=t)
        for m, ak in a.getRoot():
            for k, (zr, x) in z.getRoot() << ak:
                zr += x
        spec = [("Z", "K", "root", "k-K-populate_read_0.csv",
                 "k-K-populate_write_0.csv"),
                ("A", "K", "root", "k-K-populate_1.csv", None),
                ("Z2", "K", "M", "k-K-populate_read_0.csv",
                 "k-K-populate_write_0.csv")]
        shapes = {"Z": (("K",), (n,)), "A": (("M", "K"), (2, n)),
                  "Z2": (("K",), (n,))}
    Metrics.endCollect()
    rec.step()
    formats = {}
    for name, (ranks, shape) in shapes.items():
        t = Tensor(rank_ids=list(ranks), shape=list(shape), name=name)
        formats[name] = Format(t, {r: {"cbits": 4, "pbits": 4,
                                       "layout": "interleaved"} for r in ranks})
    keys, fns, bindings = [], {}, []
    for name, rank, evict, rd, wr in spec:
        rows = []
        for fn, acc in ((rd, "read"), (wr, "write")):
            if fn is None:
                rows.append(None)
                continue
            text = T.read_csv(fn)
            if not text:
                return          # the rank was never iterated
            d = order.index(rank) + 1
            rr = [tuple(int(x) for x in li.split(","))
                  for li in text.splitlines()[1:]]
            rows.append([(x[:d], x[d:2 * d], x[2 * d]) for x in rr])
            fns[name, rank, "elem", acc] = fn
        bindings.append({"tensor": name, "rank": rank, "type": "elem",
                         "evict-on": evict})
        ranks, shape = shapes[name]
        keys.append(Key(name, rank, "elem", evict, list(order), ranks,
                        {r: r for r in order}, shape[ranks.index(rank)], line,
                        *rows))
    run(list(order), keys, bindings, formats, fns, 8 * line, {}, rec,
        ("buffet", "cache"), False, None, repr(case))


def gen_kernel(full):
    one = list(M.specs((3,), M.linval((3,)), absent=True, explicit=False, empties=False))
    two = list(M.specs((2, 3), M.linval((2, 3)), absent=True, explicit=False, empties=False))
    for line in (1, 2):
        for sa in two:
            for sb in one:
                yield "spmv", sa, sb, None, line
            for sz in one:
                yield "insert", sa, None, sz, line


def families(tier):
    full = tier == "thorough"
    n = (7, 5) if full else (5, 4)
    return [
        Family("one", lambda: gen_one(n[0], n[1], 4, 4), ck_one,
               f"1 loop rank: all read traces of {n[0]} accesses over 4 "
               f"positions, all write traces of {n[1]} accesses and all traces of "
               f"4 iterations x (read, write, read-write) x 3 positions; lines of 1 and 2 elements; every "
               f"capacity; exhaustive search of replacement decisions"),
        Family("nest", lambda: gen_nest((2, 2), 3, [("r", ["r"]),
                                                    ("rw", ["r", "w", "rw"])]
                                        if full else
                                        [("r", ["r"]), ("rw", ["r", "w"])]),
               ck_nest, "2 loop ranks of 2 iterations, 4 placements of the "
               "tensor's ranks in the nest, all accesses over 3 positions, "
               "evict-on root and outer rank"),
        Family("nest-wide", lambda: gen_nest((2, 3), 2, [("r", ["r"]),
                                                         ("rw", ["r", "w"])]
                                             if full else [("r", ["r"])]),
               ck_nest, "2 x 3 iterations, 2 positions"),
        Family("nest3", lambda: gen_nest3(full), ck_nest3,
               "3 loop ranks of 2 iterations, 4 tensor rank sets, evict-on "
               "root, M and N"),
        Family("two", lambda: gen_two(full), ck_two,
               "two bindings sharing the buffer: two tensors, coordinates and "
               "payloads, two ranks of a tensor, two loop levels"),
        Family("staged", lambda: gen_staged(full), ck_staged,
               "rows of the insertion staging area, several rows per "
               "iteration, next to a second binding; " f"4 iterations x {9 if full else 7} "
               f"groups"),
        Family("mapping", lambda: gen_mapping(full), ck_mapping,
               "loop_ranks renaming one or both ranks"),
        Family("filter", lambda: gen_filter(full), ck_filter,
               "all sorted point lists (repeats up to 2) x filters of equal or "
               "more ranks"),
        Family("combine", lambda: gen_combine(full), ck_combine,
               "all pairs of read and write stamp lists over 4 stamps with "
               "repeats"),
        Family("kernel", lambda: gen_kernel(full), ck_kernel,
               "traces of a matrix-vector product and of a column-inserting "
               "reduction: all operands over 2x3 / 3, lines of 1 and 2"),
    ]
