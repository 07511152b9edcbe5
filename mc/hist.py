"""Exploration of histories of public mutators on live fibertrees (C01, C02).

A configuration fixes kind (unowned fiber / tensor), depth, shape S^depth,
default, format, authoritative shape or not.  From every constructor-made tree
over the bound the histories of operations are explored breadth first.  The
live state is the real object; it is saved/restored with pickle.  The canonical
state is the raw tree *plus* everything hidden that can influence later
operations (order of the rank lists, active ranges, rank defaults and shapes).
A successor whose hidden part is what a constructor gives is an initial state
of another case and is not expanded again; a tree outside the bound is checked
but not expanded.
"""

import itertools
import pickle

from fibertree import CoordPayload, Fiber, Payload, Tensor

from . import model as M
from .core import Family, Violation

V = (1, 2)


class Conf:

    def __init__(self, kind, depth, S, default=0, vals=(1,), fmt="C",
                 auth=True, hist=2, few=False, tup=False):
        self.few, self.tup = few, tup
        self.kind, self.depth, self.S, self.default = kind, depth, S, default
        self.vals, self.fmt, self.auth = vals, fmt, auth
        self.hist = hist
        self.shape = [(S // 2 + 1, 2) if tup else S] * depth

    def c(self, c):
        """coordinate of the model -> coordinate of the code"""
        return (c // 2, c % 2) if self.tup and isinstance(c, int) else c

    def u(self, c):
        """coordinate of the code -> coordinate of the model"""
        return c[0] * 2 + c[1] if self.tup and isinstance(c, tuple) else c

    def to(self, spec, d):
        if not self.tup:
            return spec
        return tuple((self.c(c), s if d == 1 else self.to(s, d - 1))
                     for c, s in spec)

    def raw(self, x):
        def un(s):
            return tuple((self.u(c), un(v) if isinstance(v, tuple) else v)
                         for c, v in s)
        r = M.raw(self.root(x))
        return un(r) if self.tup else r

    def key(self):
        return (self.kind, self.depth, self.S, self.default, self.vals,
                self.fmt, self.auth, self.hist, self.few, self.tup)

    @staticmethod
    def of(key):
        return Conf(*key)

    def initial(self):
        def rec(d):
            if d == 1 and self.few:
                v = self.vals[-1]
                return [(), ((0, v),), ((self.S - 1, self.default),)]
            opts = []
            for c in range(self.S):
                if d == 1:
                    opts.append([None] + [(c, v) for v in
                                          (self.default,) + self.vals])
                else:
                    opts.append([None] + [(c, s) for s in sub])
            return [tuple(x for x in combo if x is not None)
                    for combo in itertools.product(*opts)]
        sub = None
        for d in range(1, self.depth + 1):
            sub = rec(d)
        return sub

    def build(self, spec):
        spec = self.to(spec, self.depth)
        if self.kind == "fiber":
            f = M.mk_fiber(spec, self.depth, self.default,
                           self.shape if self.auth else None)
            if self.fmt != "C":
                f.getRankAttrs().setFormat(self.fmt)
            return f
        return M.mk_tensor(spec, self.depth,
                           self.shape if self.auth else None, self.default,
                           fmts=[self.fmt] * self.depth,
                           fiber_shape=self.auth)

    def root(self, x):
        return x if self.kind == "fiber" else x.getRoot()

    def in_bound(self, spec, d=None):
        d = self.depth if d is None else d
        for c, s in spec:
            if not isinstance(c, int) or not 0 <= c < self.S:
                return False
            if d == 1:
                if s != self.default and s not in self.vals:
                    return False
            elif not self.in_bound(s, d - 1):
                return False
        return True


def hidden(conf, x):
    """Hidden part of the canonical state"""
    root = conf.root(x)
    out = []
    index = {}

    def walk(f, path):
        index[id(f)] = path
        out.append((getattr(f, "_active_range", None), repr(f.getDefault())
                    if not isinstance(f.getDefault(), type) else "F",
                    str(f.getRankAttrs().getShape())))
        for c, p in zip(f.coords, f.payloads):
            if isinstance(p, Fiber):
                walk(p, path + (c,))
    walk(root, ())
    ranks = ()
    if conf.kind == "tensor":
        ranks = tuple((tuple(index.get(id(f), "?") for f in r.getFibers()),
                       repr(r.getAttrs().getShape())) for r in x.ranks)
    return tuple(out), ranks


# ---------------------------------------------------------------- alphabet

def sub_at(spec, path):
    for c in path:
        spec = M.lookup(spec, c)
        if spec is None:
            return None
    return spec


def paths(spec, depth):
    """(path, depth of the fiber there) of every stored fiber"""
    out = [((), depth)]
    if depth > 1:
        for c, s in spec:
            for p, d in paths(s, depth - 1):
                out.append(((c,) + p, d))
    return out


def operands(conf, d):
    """Small other-operand specs of depth d"""
    S, D = conf.S, conf.default
    v, w = conf.vals[0], conf.vals[-1]
    leaf = [(), ((0, v),), ((S - 1, w),), ((0, D),), ((S - 1, D), (S, v)),
            ((0, D), (S - 1, v)), tuple((c, v) for c in range(S))]
    if d == 1:
        return leaf
    low = operands(conf, d - 1)
    return [(), ((0, low[1]),), ((S - 1, low[2]),), ((0, ()),),
            ((0, low[3]), (S - 1, low[1])), ((0, low[5]), (S - 1, low[2])),
            ((S, low[1]),)]


def bodies(conf, d):
    """Per-coordinate body actions of a populate loop at depth d"""
    v = conf.vals[-1]
    if d == 1:
        acts = ["leave", ("set", v), ("set", conf.default), ("acc", 1),
                ("other", 0), ("other", conf.S - 1)]
    else:
        acts = ["leave", "touch", ("pt", 0, v), ("pt", conf.S - 1, v),
                ("pt", 0, conf.default), ("nest", "leave"),
                ("nest", ("set", v)), ("nest", ("set", conf.default)),
                ("ass", 1), ("clear",), ("other", 0), ("other", conf.S - 1)]
    return acts


def ops(conf, spec, rich=True):
    S, D, depth = conf.S, conf.default, conf.depth
    v, w = conf.vals[0], conf.vals[-1]
    # point references, of every prefix length
    for k in range(1, depth + 1):
        for pt in itertools.product(range(S), repeat=k):
            yield ("ref", pt)
    for pt in itertools.product(range(S), repeat=depth):
        yield ("set", pt, w)
        yield ("set", pt, D)
        yield ("acc", pt, v)
    if depth > 1:
        for pt in itertools.product(range(S), repeat=depth - 1):
            for k in (0, 1, 4):
                yield ("assign", pt, k)
    if rich:
        # every form of a written value x every augmented assignment, through
        # a reference and through an element f[pos]
        for pt in ((0,) * depth, (S - 1,) * depth):
            for o in AUG:
                for form in FORMS:
                    yield ("wform", pt, o, form)
        for path, d in paths(spec, depth):
            n = len(sub_at(spec, path))
            if d == 1:
                for pos in {0, n - 1} if n else ():
                    for o in AUG:
                        for form in FORMS:
                            yield ("eform", path, d, pos, o, form)
                for form in FORMS:
                    yield ("aform", path, d, S - 1, form)
                    yield ("iform", path, d, 0, form)
                    yield ("sform", path, d, 0, form)
    # per fiber
    for path, d in paths(spec, depth):
        s = sub_at(spec, path)
        n = len(s)
        nop = len(operands(conf, d))
        for c in range(S + 1):
            for k in ((0, 1) if d == 1 else (0, 1, 4)):
                yield ("append", path, d, c, k)
                yield ("insert", path, d, c, k)
                yield ("iol", path, d, c, k)
            yield ("iol", path, d, c, None)
        for k in range(nop):
            yield ("extend", path, d, k)
            yield ("ilshift", path, d, k)
            yield ("iaddf", path, d, k)
            yield ("imulf", path, d, k)
        for pos in list(range(n)) + [n, -1, "slice"]:
            for k in (None, 0, 1):
                yield ("setitem", path, d, pos, None, k)
                for c in range(-1, S + 1):
                    yield ("setitem", path, d, pos, c, k)
        yield ("iadd", path, d, 1)
        yield ("imul", path, d, 2)
        yield ("imul", path, d, 0)
        for a, b, st in ((0, S, 1), (0, S, 2), (S - 1, S + 1, 1), (1, 1, 1)):
            yield ("range", path, d, a, b, st)
        yield ("ishape", path, d)
        yield ("iactive", path, d)
        yield ("coiter", path, d)
        yield ("clear", path, d)
        for k in range(nop):
            yield ("selfpop", path, d, k)
        if rich == "forms":
            continue
        # populate: every subset of source coordinates x every body choice,
        # ended normally or abandoned after the last executed body
        acts = bodies(conf, d)
        for n in range(0, S + 1 if rich else 2):
            for cs in itertools.combinations(range(S), n):
                for body in itertools.product(range(len(acts)), repeat=n):
                    yield ("pop", path, d, tuple(zip(cs, body)), 0)
                    if n:
                        yield ("pop", path, d, tuple(zip(cs, body)), 1)
    if depth > 1:
        # a default obtained by a read (or from the absent side of a union)
        # is not part of the tree; using it must not touch the tree's ranks
        for c in range(S):
            for k in range(1, depth):
                yield ("ghost", (c,), k)
                yield ("ghost2", (c,), k)
            if depth > 2:
                for c1 in range(S):
                    yield ("ghost", (c, c1), 1)
    for dd in range(depth):
        for fn in ("shift", "rev", "half", "const", "same", "bypos"):
            for shp in (0, 1):
                yield ("ucoords", dd, fn, shp)
        for fn in ("inc", "plain", "const", "zero", "same", "pos"):
            if dd == depth - 1:
                yield ("upay", dd, fn)
        if dd < depth - 1:
            for fn in ("same", "copy", "fresh", "empty"):
                yield ("upay", dd, fn)


AUG = ("<<=", "+=", "-=", "*=", "/=", "|=", "&=")
FORMS = ("int", "float", "bool", "box", "pair", "rawpair", "elem")


def valform(conf, form):
    v = conf.vals[-1]
    if form == "float":
        return float(v)
    if form == "bool":
        return True
    if form == "box":
        return Payload(v)
    if form == "pair":
        return CoordPayload(conf.c(0), Payload(v))
    if form == "rawpair":
        return CoordPayload(conf.c(0), v)
    if form == "elem":
        return Fiber([conf.c(0), conf.c(1)], [v, v])[1]
    return v


def leafform(conf, form):
    """A value in a form that is a payload (not an element)"""
    return valform(conf, form if form in ("int", "float", "bool", "box")
                   else "box")


def aug(x, o, v):
    if o == "<<=":
        x <<= v
    elif o == "+=":
        x += v
    elif o == "-=":
        x -= v
    elif o == "*=":
        x *= v
    elif o == "/=":
        x /= v
    elif o == "|=":
        x |= v
    elif o == "&=":
        x &= v
    return x


CFUN = {
    "shift": lambda S: lambda i, c, p: c + 1,
    "rev": lambda S: lambda i, c, p: S - 1 - c,
    "half": lambda S: lambda i, c, p: c // 2,
    "const": lambda S: lambda i, c, p: 0,
    "same": lambda S: lambda i, c, p: c,
    "bypos": lambda S: lambda i, c, p: i,
}


def payload(conf, d, k):
    """k-th payload value for a fiber of depth d"""
    if d == 1:
        return (conf.default, conf.vals[-1])[k] if k < 2 else conf.vals[0]
    return M.mk_fiber(conf.to(operands(conf, d - 1)[k], d - 1), d - 1,
                      conf.default)


def other(conf, d, k):
    return M.mk_fiber(conf.to(operands(conf, d)[k], d), d, conf.default)


def do(conf, x, op):
    """Execute op on the live object x"""
    root = conf.root(x)
    kind = op[0]
    if kind in ("ref", "set", "acc", "assign"):
        ref = root.getPayloadRef(*map(conf.c, op[1]))
        if kind == "set":
            ref <<= op[2]
        elif kind == "acc":
            ref += op[2]
        elif kind == "assign":
            ref <<= other(conf, conf.depth - len(op[1]), op[2])
        return
    if kind == "wform":
        aug(root.getPayloadRef(*map(conf.c, op[1])), op[2],
            valform(conf, op[3]))
        return
    if kind == "ghost":
        p = root.getPayload(*map(conf.c, op[1]))
        r = p.getPayloadRef(*[conf.c(0)] * op[2])
        if isinstance(r, Payload):
            r <<= 1
        return
    if kind == "ghost2":
        g = other(conf, conf.depth, 1)
        for c, (mask, a, b) in root | g:
            a.getPayloadRef(*[conf.c(0)] * op[2])
            b.getPayloadRef(*[conf.c(0)] * op[2])
        return
    if kind == "ucoords":
        _, dd, fn, shp = op
        g = CFUN[fn](conf.S)
        root.updateCoords(lambda i, c, p: conf.c(g(i, conf.u(c), p)), depth=dd,
                          new_shape=conf.shape[dd] if shp else None)
        return
    if kind == "upay":
        _, dd, fn = op
        f = {"inc": lambda i, c, p: p + 1,
             "plain": lambda i, c, p: 2,
             "const": lambda i, c, p: Payload(1),
             "zero": lambda i, c, p: conf.default,
             "same": lambda i, c, p: p,
             "pos": lambda i, c, p: i,
             "copy": lambda i, c, p: p.copy(preserve_owner=False),
             "fresh": lambda i, c, p: payload(conf, conf.depth - dd, 1),
             "empty": lambda i, c, p: payload(conf, conf.depth - dd, 0)}[fn]
        root.updatePayloads(f, depth=dd)
        return

    path, d = op[1], op[2]
    f = root
    for c in path:
        f = f.payloads[f.coords.index(conf.c(c))]
    if kind == "eform":
        f[op[3]] = aug(f[op[3]], op[4], valform(conf, op[5]))
    elif kind == "aform":
        f.append(conf.c(op[3]), leafform(conf, op[4]))
    elif kind == "iform":
        f.insertOrLookup(conf.c(op[3]), leafform(conf, op[4]))
    elif kind == "sform":
        f[op[3]] = valform(conf, op[4])
    elif kind == "append":
        f.append(conf.c(op[3]), payload(conf, d, op[4]))
    elif kind == "insert":
        f.insert(conf.c(op[3]), payload(conf, d, op[4]))
    elif kind == "iol":
        f.insertOrLookup(conf.c(op[3]), payload(conf, d, op[4])
                         if op[4] is not None else None)
    elif kind == "extend":
        f.extend(other(conf, d, op[3]))
    elif kind == "ilshift":
        f <<= other(conf, d, op[3])
    elif kind == "iaddf":
        f += other(conf, d, op[3])
    elif kind == "imulf":
        f *= other(conf, d, op[3])
    elif kind == "iadd":
        f += op[3]
    elif kind == "imul":
        f *= op[3]
    elif kind == "setitem":
        _, _, _, pos, c, k = op
        val = None if k is None else payload(conf, d, k)
        if pos == "slice":
            pos = slice(0, 1)
        if c is None:
            f[pos] = val
        else:
            f[pos] = CoordPayload(conf.c(c), val)
    elif kind == "range":
        for _ in f.iterRangeShapeRef(op[3], op[4], op[5]):
            pass
    elif kind == "ishape":
        for _, r in f.iterShapeRef():
            pass
    elif kind == "iactive":
        for _, r in f.iterActiveShapeRef():
            pass
    elif kind == "coiter":
        g = other(conf, d, 1)
        for _ in Fiber.coiterShapeRef([f, g]):
            pass
    elif kind == "clear":
        f.clear()
    elif kind == "selfpop":
        src = other(conf, d, op[3])
        for c, (r, p) in f << src:
            r <<= p
    elif kind == "pop":
        populate(conf, f, d, op[3], op[4])
    else:
        raise KeyError(kind)


def populate(conf, f, d, plan, brk):
    acts = bodies(conf, d)
    S = conf.S
    if d == 1:
        src = Fiber([conf.c(c) for c, _ in plan], [conf.vals[0]] * len(plan),
                    shape=conf.shape[0])
    else:
        sub = tuple((c, conf.vals[0]) for c in range(S))
        for _ in range(d - 2):
            sub = ((0, sub),)
        src = M.mk_fiber(conf.to(tuple((c, sub) for c, _ in plan), d), d, 0,
                         conf.shape[:1] * d)
    plan = dict(plan)
    n = 0
    for c, (r, p) in f << src:
        a = acts[plan[conf.u(c)]]
        n += 1
        if a == "leave":
            pass
        elif a == "touch":
            len(r)
        elif a[0] == "set":
            r <<= a[1]
        elif a[0] == "acc":
            r += a[1]
        elif a[0] == "other":
            f.getPayloadRef(conf.c(a[1]))
        elif a[0] == "pt":
            rr = r.getPayloadRef(*map(conf.c, (a[1],) + (0,) * (d - 2)))
            rr <<= a[2]
        elif a[0] == "nest":
            nest(conf, r, p, d - 1, a[1])
        elif a[0] == "ass":
            r <<= other(conf, d - 1, a[1])
        elif a[0] == "clear":
            r.clear()
        if brk and n == len(plan):
            break


def nest(conf, r, p, d, act):
    for _, (rr, pp) in r << p:
        if d > 1:
            nest(conf, rr, pp, d - 1, act)
        elif act != "leave":
            rr <<= act[1]


def violates_order(conf, spec, op):
    """Does the model say that op violates coordinate order?"""
    kind = op[0]
    if kind == "ucoords":
        _, dd, fn, _ = op
        g = CFUN[fn](conf.S)

        def walk(s, lvl):
            if lvl == dd:
                cs = [g(i, c, None) for i, (c, _) in enumerate(s)]
                return len(set(cs)) != len(cs)
            return any(walk(x, lvl + 1) for _, x in s)
        return walk(spec, 0)
    if kind not in ("append", "extend", "setitem"):
        return False
    s = sub_at(spec, op[1])
    cs = [c for c, _ in s]
    if kind == "append":
        return bool(cs) and op[3] <= cs[-1]
    if kind == "extend":
        o = operands(conf, op[2])[op[3]]
        return bool(cs) and bool(o) and o[0][0] <= cs[-1]
    _, _, _, pos, c, k = op
    if pos == "slice" or c is None or not -len(cs) <= pos < len(cs):
        return False
    cs[pos] = c
    return any(a >= b for a, b in zip(cs, cs[1:]))


# ---------------------------------------------------------------- explorer

def explore(conf, init, rec, invariant):
    x = conf.build(init)
    base = conf.build(init)
    invariant(conf, x, "constructor")
    h0 = hidden(conf, x)
    fresh = {init: h0}
    rec.state((conf.key(), init, h0))
    frontier = [(pickle.dumps(x), ())]
    seen = {(init, h0)}
    for lvl in range(conf.hist):
        nxt = []
        for blob, hist in frontier:
            cur = conf.raw(pickle.loads(blob))
            for op in ops(conf, cur, lvl == 0):
                x = pickle.loads(blob)
                before = conf.raw(x)
                h = hist + (op,)
                rejected = None
                try:
                    do(conf, x, op)
                except RecursionError:
                    raise
                except Exception as e:
                    rejected = f"{type(e).__name__}: {e}"
                rec.step()
                what = f"history {h!r} from {init!r}" + (
                    f" (rejected: {rejected})" if rejected else "")
                after = conf.raw(x)
                if rejected and violates_order(conf, cur, op) \
                        and after != before:
                    raise Violation(f"{what}: an operation rejected for "
                                    f"violating coordinate order changed the "
                                    f"tree {before!r} -> {after!r}")
                invariant(conf, x, what)
                rec.ok()
                hd = hidden(conf, x)
                key = (after, hd)
                if key in seen:
                    continue
                seen.add(key)
                rec.state((conf.key(), after, hd))
                if lvl + 1 < conf.hist and conf.in_bound(after):
                    if after not in fresh:
                        fresh[after] = hidden(conf, conf.build(after))
                    if fresh[after] != hd:
                        nxt.append((pickle.dumps(x), h))
        frontier = nxt


# ---------------------------------------------------------------- large trees

def orders(N):
    """Orders of visiting N coordinates"""
    yield "asc", list(range(N))
    yield "desc", list(range(N))[::-1]
    yield "odd-even", list(range(1, N, 2)) + list(range(0, N, 2))
    k = next(k for k in range(N // 3 + 1, N) if all(
        k % p or N % p for p in range(2, N + 1)))
    yield "stride", [c * k % N for c in range(N)]
    yield "ends", [c for i in range((N + 1) // 2)
                   for c in dict.fromkeys((i, N - 1 - i))]


def scripts(conf):
    """Long histories that build, edit and empty large trees"""
    N, D, d = conf.S, conf.default, conf.depth
    v, w = conf.vals[0], conf.vals[-1]

    def pt(c):
        return (c,) + (c % 2, c % 3)[:d - 1]
    tail = [("ucoords", 0, "rev", 1), ("upay", d - 1, "inc"),
            ("set", pt(N // 2), D), ("set", pt(N - 1), w), ("acc", pt(0), v),
            ("upay", d - 1, "zero"), ("set", pt(3), w), ("clear", (), d),
            ("set", pt(N - 2), w), ("set", pt(1), w)]
    for name, o in orders(N):
        yield f"set-{name}", [("set", pt(c), w) for c in o] + tail
        yield f"ref-{name}", [("ref", pt(c)[:1 + i % d])
                              for i, c in enumerate(o)] + tail
        yield f"acc-{name}", [("acc", pt(c), v) for c in o + o[:9]] + tail[2:]
        for k in ("insert", "iol"):
            yield f"{k}-{name}", [(k, (), d, c, 1) for c in o] + tail
        if name == "asc":
            yield "append", [("append", (), d, c, 1) for c in o] + \
                [("append", (), d, c, 1) for c in (0, N // 2, N - 1)] + tail
            yield "append-gaps", [("append", (), d, c, 1) for c in o[::2]] + \
                [("insert", (), d, c, 1) for c in o[1::2]] + \
                [("setitem", (), d, p, None, 1) for p in (0, N // 2, -1)] + \
                [("setitem", (), d, p, c, 1) for p in (0, N // 2, -1)
                 for c in (0, N // 2, N)] + tail
        if d > 1:
            yield f"assign-{name}", [("assign", (c,), 1) for c in o] + tail
        half = [("set", pt(c), w) for c in o[:N // 2]]
        if d == 1:
            yield f"range-{name}", half + [
                ("range", (), d, 0, N, 2), ("range", (), d, N // 2, N, 1),
                ("ishape", (), d), ("iactive", (), d), ("coiter", (), d)] + \
                tail
        for nop in range(len(operands(conf, d))):
            yield f"with{nop}-{name}", half + [
                ("extend", (), d, nop), ("iaddf", (), d, nop),
                ("selfpop", (), d, nop), ("imulf", (), d, nop),
                ("ilshift", (), d, nop)] + tail
        nb = len(bodies(conf, d))
        for b in range(nb):
            for brk in (0, 1):
                yield f"pop{b}-{name}-{brk}", half + [
                    ("pop", (), d, tuple((c, b) for c in range(0, N, 3)), brk),
                    ("pop", (), d, tuple((c, (b + c) % nb)
                                         for c in range(N)), brk)] + tail
        if d > 1:
            yield f"sub-{name}", half + [
                x for c in (o[0], o[N // 4], o[N // 2 - 1])
                for x in (("clear", (c,), d - 1),
                          ("append", (c,), d - 1, N - 1, 1),
                          ("insert", (c,), d - 1, 5, 1),
                          ("ref", (c, 7)), ("upay", 0, "copy"))] + tail


def large_family(name, conf, step):
    """step(conf, x, op, before, what): called after every operation (op None:
    after construction)"""
    def gen():
        for s, _ in scripts(conf):
            yield (conf.key(), s)

    def check(case, rec):
        conf = Conf.of(case[0])
        script = dict(scripts(conf))[case[1]]
        x = conf.build(())
        step(conf, x, None, (), f"{case!r}")
        for i, op in enumerate(script):
            before = conf.raw(x)
            what = f"{case!r}, operation {i} {op!r}"
            try:
                do(conf, x, op)
            except RecursionError:
                raise
            except Exception as e:
                what += f" (rejected: {type(e).__name__}: {e})"
            step(conf, x, op, before, what)
            rec.step()
        rec.ok()
        rec.state(case)
    return Family(name, gen, check, f"{conf.kind} depth {conf.depth}: long "
                  f"histories over {conf.S} coordinates: {len(dict(scripts(conf)))} "
                  "scripts (5 orders of building) build, edit and empty large "
                  "trees")
