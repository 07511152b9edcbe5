"""Reference model of the accesses a loop nest performs, and of their trace.

Fibers are plain sorted lists; co-iterations are generators that log every
access they make.  Nothing here looks at the library.
"""

import contextlib
import bisect

# what a position may be when the property does not fix it
ANY = None


class MF:
    """model fiber: items [[coord, MF or value]], sorted"""

    def __init__(self, items, depth, fmt="C", active=None):
        self.items = items
        self.depth = depth
        self.fmt = fmt
        self.active = active

    def empty_child(self):
        if self.depth == 1:
            return 0
        return MF([], self.depth - 1, self.fmt,
                  self.active and self.active[1:])

    def index(self, c):
        return bisect.bisect_left([x[0] for x in self.items], c)

    def get(self, c):
        i = self.index(c)
        if i < len(self.items) and self.items[i][0] == c:
            return i, self.items[i][1]
        return i, None


def is_empty(x):
    if isinstance(x, MF):
        return all(is_empty(p) for _, p in x.items)
    return x == 0


def mf(spec, depth, fmt="C", shape=None):
    """shape: extents of the ranks (needed for uncompressed fibers)"""
    return MF([[c, mf(p, depth - 1, fmt, shape and shape[1:])
                if depth > 1 else p] for c, p in spec],
              depth, fmt, shape)


def raw(x):
    return tuple((c, raw(p) if isinstance(p, MF) else p) for c, p in x.items)


class Row:
    """One expected row: outer body numbers, coordinates, allowed positions"""

    __slots__ = ("outer", "coords", "pos")

    def __init__(self, outer, coords, pos):
        self.outer = outer
        self.coords = coords
        self.pos = pos      # tuple of allowed positions, or ANY

    def __repr__(self):
        return f"{self.coords}@{'any' if self.pos is ANY else self.pos}"


class Log:

    def __init__(self):
        self.rows = {}          # (rank, type) -> [Row]
        self.order = []         # ranks in the order their loops first began
        self.labels = {}
        self.env = []           # coordinates of the enclosing loop bodies
        self.outer = []         # numbers of the enclosing loop bodies
        self.bodies = []        # rank of every body, in order
        self.matched = {}       # rank -> rank of the loop it belongs to

    def label(self, rank):
        rank = self.matched.get(rank, rank)
        n = self.labels.get(rank, 0)
        self.labels[rank] = n + 1
        return n

    @contextlib.contextmanager
    def at_head(self):
        """accesses of a body to the rank of its own loop"""
        saved = self.env.pop(), self.outer.pop()
        yield
        self.env.append(saved[0])
        self.outer.append(saved[1])

    @contextlib.contextmanager
    def cut(self, depth):
        """accesses seen from the given number of enclosing loop bodies"""
        saved = self.env, self.outer
        self.env, self.outer = self.env[:depth], self.outer[:depth]
        yield
        self.env, self.outer = saved

    def row(self, rank, type_, coord, pos):
        r = Row(tuple(self.outer), tuple(self.env) + (coord,), pos)
        self.rows.setdefault((rank, type_), []).append(r)
        return r


# ---------------------------------------------------------------- co-iteration
#
# every generator yields (allowed positions, coordinate, payload)

def leaf(f):
    """what iterating over the fiber presents"""
    if f.fmt == "U":
        yield from dense(f, 0, f.active[0])
    else:
        yield from stored(f)


def stored(f, lo=None, hi=None, start=0):
    i = 0
    for c, p in list(f.items):
        if i >= start and not is_empty(p) and (lo is None or lo <= c < hi):
            yield (i,) if f.fmt == "C" else (i, c), c, p
        i += 1


def dense(f, lo, hi, step=1):
    for c in range(lo, hi, step):
        i, p = f.get(c)
        pos = (c,) if f.fmt == "U" else (i,) if p is not None else ANY
        yield pos, c, p if p is not None else f.empty_child()


def dense_ref(f, lo, hi):
    for c in range(lo, hi):
        i, p = f.get(c)
        if p is None:
            f.items.insert(i, [c, f.empty_child()])
        yield (i,) if f.fmt == "C" else (i, c), c, Ref(f, c)


def seq(g):
    """positions of a lazily computed fiber are sequence numbers"""
    for n, (_, c, p) in enumerate(g):
        yield (n,), c, p


def both(log, rank, ga, gb):
    """two-finger intersection"""
    return seq(_both(log, rank, ga, gb))


def _both(log, rank, ga, gb):
    ta, tb = f"intersect_{log.label(rank)}", f"intersect_{log.label(rank)}"
    a, b = next(ga, None), next(gb, None)
    while a is not None and b is not None:
        if a[1] <= b[1]:
            log.row(rank, ta, a[1], a[0])
        if b[1] <= a[1]:
            log.row(rank, tb, b[1], b[0])
        if a[1] == b[1]:
            yield None, a[1], (a[2], b[2])
            a, b = next(ga, None), next(gb, None)
        elif a[1] < b[1]:
            a = next(ga, None)
        else:
            b = next(gb, None)
    # the head of the other operand has been read
    if a is not None:
        log.row(rank, ta, a[1], a[0])
    if b is not None:
        log.row(rank, tb, b[1], b[0])


def either(log, rank, ga, gb, da, db):
    """union; da, db: default payloads"""
    return seq(_either(log, rank, ga, gb, da, db))


def _either(log, rank, ga, gb, da, db):
    ta, tb = f"union_{log.label(rank)}", f"union_{log.label(rank)}"
    A = {x[1]: x for x in ga}
    B = {x[1]: x for x in gb}
    for c in sorted(set(A) | set(B)):
        if c in A:
            log.row(rank, ta, c, A[c][0])
        if c in B:
            log.row(rank, tb, c, B[c][0])
        yield None, c, ("AB" if c in A and c in B else "A" if c in A else "B",
                        A[c][2] if c in A else da(),
                        B[c][2] if c in B else db())


def find(log, rank, type_, f, c):
    """random access to coordinate c"""
    i, p = f.get(c)
    if p is None:
        log.row(rank, type_, c, ANY)
        return f.empty_child()
    log.row(rank, type_, c, (i, c) if f.fmt == "U" else (i,))
    return p


def leader(log, rank, fibers):
    """leader-follower intersection"""
    return seq(_leader(log, rank, fibers))


def _leader(log, rank, fibers):
    ts = [f"intersect_{log.label(rank)}" for _ in fibers]
    for pos, c, p in leaf(fibers[0]):
        log.row(rank, ts[0], c, pos)
        yield None, c, (p,) + tuple(find(log, rank, t, f, c)
                                    for t, f in zip(ts[1:], fibers[1:]))


def project(log, rank, f, fn, interval=None, new=None, start=0):
    return seq(_project(log, rank, f, fn, interval, new, start))


def _project(log, rank, f, fn, interval, new, start=0):
    """the target rank names the loop; rows are for the source rank"""
    if new is not None and new != rank:
        log.matched[rank] = new
    t = f"project_{log.label(rank)}"
    elems = list(stored(f, start=start) if start else leaf(f))
    if fn(0) > fn(1):
        elems.reverse()
    for pos, c, p in elems:
        c2 = fn(c)
        if interval is not None and c2 >= interval[1]:
            break
        if interval is None or c2 >= interval[0]:
            log.row(rank, t, c, pos)
            yield None, c2, p


class Ref:
    """what populate hands out: a place in the output"""

    def __init__(self, f, c):
        self.f = f
        self.c = c

    @property
    def val(self):
        return self.f.get(self.c)[1]

    def set(self, v):
        i, p = self.f.get(self.c)
        assert p is not None
        self.f.items[i][1] = v


def populate(log, rank, y, gb, start=0):
    return seq(_populate(log, rank, y, gb, start))


def _populate(log, rank, y, gb, start=0):
    ly, lb = log.label(rank), log.label(rank)
    rd, wr = f"populate_read_{ly}", f"populate_write_{ly}"
    inserting = None
    at, inserted, first_ins, search_from = start, [], None, None
    mine = []

    def where(i, c):
        return (i, c) if y.fmt == "U" else (i,)
    for pos, c, p in gb:
        if inserting is None:
            inserting = y.fmt == "C" and bool(y.items) and c < y.items[-1][0]
        log.row(rank, f"populate_{lb}", c, pos)
        if inserting:
            # elements passed over while searching
            for i in range(at, len(y.items)):
                cc, pp = y.items[i]
                if cc >= c:
                    break
                if not is_empty(pp) and (search_from is None or
                                         cc >= search_from):
                    mine.append(log.row(rank, rd, cc, (i,)))
        i, old = y.get(c)
        if old is None:
            y.items.insert(i, [c, y.empty_child()])
        else:
            mine.append(log.row(rank, rd, c, where(i, c)))
        yield None, c, (Ref(y, c), p)
        i, val = y.get(c)
        at = i + 1
        if is_empty(val):
            del y.items[i]
            at = i
        else:
            mine.append(log.row(rank, wr, c, where(i, c)))
            if inserting and old is None:
                search_from = c + 1
                inserted.append(c)
                if first_ins is None:
                    first_ins = i
    if inserted:
        # staged beyond the extent of the fiber: positions are not fixed
        for r in mine:
            r.pos = ANY
        # everything from the first insertion on is moved into place
        for cc, pp in reversed(y.items[first_ins:]):
            if not is_empty(pp):
                log.row(rank, rd, cc, ANY)
                log.row(rank, wr, cc, ANY)


# ---------------------------------------------------------------- loops

def loop(log, rank, g):
    """for c, p in g: the body is what the consumer does"""
    if rank not in log.order:
        log.order.append(rank)
    log.labels.setdefault(rank, 0)
    for pos, c, p in g:
        log.row(rank, "iter", c, pos)
        log.bodies.append(rank)
        log.env.append(c)
        log.outer.append(len(log.bodies) - 1)
        yield c, p
        log.env.pop()
        log.outer.pop()
    log.labels[rank] = 0
