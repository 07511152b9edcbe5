"""C03: point access behaves like a map from points to values."""

import itertools

from fibertree import Fiber, Payload, Tensor

from ..core import Family, Violation, eq, require
from .. import hist as H
from .. import model as M

RULE = ("every tree of the bound x every point/prefix x every legal start "
        "position x every sequence of reference writes up to the bound; map "
        "oracle over points, exact raw-tree oracle for created paths, object "
        "identity for aliasing")
ASSUMPTIONS = [
    "unowned fibers do not know the leaf default below an absent branch, so "
    "non-zero defaults are checked on tensors (all depths) and on depth-1 "
    "fibers"]


def snap(x):
    return M.snap(x)


def pts(conf, k, extra=1):
    return itertools.product(range(conf.S + extra), repeat=k)


def get(conf, x, pt, **kw):
    return x.getPayload(*map(conf.c, pt), **kw)


def want_at(conf, spec, pt):
    """(stored?, model sub-spec or value) at a point or prefix"""
    s = spec
    for c in pt:
        s = M.lookup(s, c)
        if s is None:
            return False, None
    return True, s


def follow(root, conf, pt):
    """The live object stored at pt (raw walk)"""
    p = root
    for c in pt:
        p = p.payloads[p.coords.index(conf.c(c))]
    return p


def un(conf, s):
    return tuple((conf.u(c), un(conf, v) if isinstance(v, tuple) else v)
                 for c, v in s)


def check_value(conf, what, p, spec, pt, root):
    """p is what a default read of pt delivered"""
    st, w = want_at(conf, spec, pt)
    if len(pt) == conf.depth:
        require(isinstance(p, Payload) and not isinstance(p.value, Payload),
                "{}: not a singly boxed value: {!r}", what, p)
        v = w if st else conf.default
        require(p.value == v and type(p.value) is type(v),
                "{}: got {!r}, expected {!r}", what, p.value, v)
    else:
        require(isinstance(p, Fiber), "{}: not a fiber: {!r}", what, p)
        d = conf.depth - len(pt)
        eq(M.content(un(conf, M.raw(p)), d, conf.default),
           M.content(w, d, conf.default) if st else {}, what)
    if st:
        require(p is follow(root, conf, pt),
                "{}: not the stored payload", what)


def all_reads(conf, x, spec, what):
    """Default reads of every point (and prefix) against the model"""
    root = conf.root(x)
    for k in range(1, conf.depth + 1):
        for pt in pts(conf, k):
            check_value(conf, f"{what}: getPayload{pt}", get(conf, x, pt),
                        spec, pt, root)


def chk_read(case, rec):
    ck, spec = case
    conf = H.Conf.of(ck)
    x = conf.build(spec)
    root = conf.root(x)
    before = snap(x)
    what = f"{conf.kind} {spec!r}"
    all_reads(conf, x, spec, what)
    sentinel = "nothing"
    for k in range(1, conf.depth + 1):
        for pt in pts(conf, k):
            st, w = want_at(conf, spec, pt)
            rec.step(3)
            p = get(conf, x, pt, allocate=False)
            q = get(conf, x, pt, allocate=False, default=7)
            if st:
                s = follow(root, conf, pt)
                require(p is s and q is s, "{}: getPayload({}, "
                        "allocate=False) is not the stored payload", what, pt)
            else:
                require(p is None or M.unbox(p) is None, "{}: getPayload({}, "
                        "allocate=False) is {!r}", what, pt, p)
                eq(M.unbox(q), 7, f"{what}: getPayload({pt}, default=7)")
            # stepwise reads compose
            p = x
            for c in pt:
                p = p.getPayload(conf.c(c))
            check_value(conf, f"{what}: stepwise {pt}", p, spec, pt, root)
    # list position interface
    for path, d in H.paths(spec, conf.depth):
        f = follow(root, conf, path)
        s = H.sub_at(spec, path)
        for i, (c, v) in enumerate(s):
            for key in (i, i - len(s)):
                e = f[key]
                rec.step()
                require(e.coord == conf.c(c) and e.payload is f.payloads[i],
                        "{}: [{}] is {!r}", what, key, e)
        for a, b in itertools.product(range(len(s) + 1), repeat=2):
            sl = f[a:b]
            eq((list(sl.coords), [id(p) for p in sl.payloads]),
               ([conf.c(c) for c, _ in s[a:b]],
                [id(p) for p in f.payloads[a:b]]), f"{what}: [{a}:{b}]")
        positions(conf, f, s, d, rec, f"{what} at {path}")
    require(snap(x) == before, "{}: a read changed the tree or its ranks",
            what)
    rec.state((ck, spec))
    rec.ok()


def legal_starts(s, c):
    """Positions a search for c may start from"""
    return [None, 0] + [i for i, (cc, _) in enumerate(s) if i and cc <= c]


def positions(conf, f, s, d, rec, what):
    """Position lookups and search-start shortcuts of one fiber"""
    cs = [c for c, _ in s]
    for c in range(conf.S + 1):
        for sp in legal_starts(s, c):
            for box in (False, True):
                if box and sp is None:
                    continue
                spv = Payload(sp) if box else sp
                rec.step(2)
                pos = f.getPosition(conf.c(c), start_pos=spv)
                if c not in cs:
                    require(pos is None, "{}: getPosition({}, start_pos={}) "
                            "is {!r}", what, c, sp, pos)
                elif pos is None:
                    # "if the element is empty return None"
                    require(M.is_empty(M.lookup(s, c), d - 1, conf.default),
                            "{}: getPosition({}, start_pos={}) misses a "
                            "stored element", what, c, sp)
                else:
                    eq(pos, cs.index(c), f"{what}: getPosition({c}, "
                       f"start_pos={sp})")
                for kw in ({}, {"allocate": False}):
                    p = f.getPayload(conf.c(c), start_pos=spv, **kw)
                    if c in cs:
                        require(p is f.payloads[cs.index(c)],
                                "{}: getPayload({}, start_pos={}) is not the "
                                "stored payload", what, c, sp)
                    elif kw:
                        require(p is None or M.unbox(p) is None,
                                "{}: getPayload({}, start_pos={}, "
                                "allocate=False) is {!r}", what, c, sp, p)
                    elif d == 1:
                        eq(M.unbox(p), conf.default,
                           f"{what}: getPayload({c}, start_pos={sp})")
                    else:
                        require(isinstance(p, Fiber) and len(p.coords) == 0,
                                "{}: getPayload({}, start_pos={}) is {!r}",
                                what, c, sp, p)
                    # the position saved by this search is a legal start for
                    # any later search at or above c
                    if sp is None:
                        continue
                    saved = f.getSavedPos()
                    for c2 in range(c, conf.S + 1):
                        rec.step()
                        p2 = f.getPayload(conf.c(c2), start_pos=saved,
                                          allocate=False)
                        if c2 in cs:
                            require(p2 is f.payloads[cs.index(c2)],
                                    "{}: getPayload({}) from the position {} "
                                    "saved by looking up {} misses the stored "
                                    "payload", what, c2, saved, c)
                        else:
                            require(p2 is None or M.unbox(p2) is None,
                                    "{}: getPayload({}) from saved position "
                                    "{}: {!r}", what, c2, saved, p2)


# ---------------------------------------------------------------- references

def put(spec, pt, depth, default, v=None):
    """spec with the path pt present; leaf value replaced when v given"""
    c = pt[0]
    items = dict(spec)
    if depth == 1:
        if c not in items:
            items[c] = default
        if v is not None:
            items[c] = v(items[c])
    elif len(pt) == 1:
        items.setdefault(c, ())
    else:
        items[c] = put(items.get(c, ()), pt[1:], depth - 1, default, v)
    return tuple(sorted(items.items()))


ACT = {"noop": None,
       "set": lambda old: 5, "setbox": lambda old: 6,
       "default": None,
       "add": lambda old: old + 2, "mul": lambda old: old * 3,
       "sub": lambda old: old - 1}


def act(ref, a, conf):
    if a == "set":
        ref <<= 5
    elif a == "setbox":
        ref <<= Payload(6)
    elif a == "default":
        ref <<= conf.default
    elif a == "add":
        ref += 2
    elif a == "mul":
        ref *= 3
    elif a == "sub":
        ref -= 1


def fn(conf, a):
    return (lambda old: conf.default) if a == "default" else ACT[a]


def chk_refs(case, rec):
    """Two references held at the same time, written in either order"""
    ck, spec = case
    conf = H.Conf.of(ck)
    D = conf.depth
    full = [pt for pt in pts(conf, D, 0)]
    acts = ("noop", "set", "add", "default") if conf.depth > 1 else \
        tuple(ACT)
    for k in range(1, D + 1):
        for p1 in pts(conf, k, 0):
            for p2 in full:
                for a1, a2 in itertools.product(
                        acts if k == D else ("noop",), acts):
                    one_refs(conf, spec, p1, a1, p2, a2, rec)


def one_refs(conf, spec, p1, a1, p2, a2, rec):
    D = conf.depth
    what = (f"{conf.kind} {spec!r}: r1=ref{p1}; r2=ref{p2}; r2 {a2}; r1 {a1}")
    x = conf.build(spec)
    root = conf.root(x)
    kept = {pt: follow(root, conf, pt) for pt in M.stored(spec, D)}
    r1 = x.getPayloadRef(*map(conf.c, p1))
    m = put(spec, p1, D, conf.default)
    eq(conf.raw(x), m, what + ": tree after first reference")
    r2 = x.getPayloadRef(*map(conf.c, p2))
    m = put(m, p2, D, conf.default)
    eq(conf.raw(x), m, what + ": tree after second reference")
    require(r1 is follow(root, conf, p1) and r2 is follow(root, conf, p2),
            "{}: a reference is not the stored payload", what)
    act(r2, a2, conf)
    if fn(conf, a2):
        m = put(m, p2, D, conf.default, fn(conf, a2))
    eq(conf.raw(x), m, what + ": tree after writing r2")
    if len(p1) == D:
        act(r1, a1, conf)
        if fn(conf, a1):
            m = put(m, p1, D, conf.default, fn(conf, a1))
        eq(conf.raw(x), m, what + ": tree after writing r1")
    for pt, box in kept.items():
        require(follow(root, conf, pt) is box,
                "{}: the payload box at {} was replaced", what, pt)
    rec.step(4)
    rec.ok()
    if rec.state((conf.key(), m)):
        all_reads(conf, x, m, what)
        M.check_fiber(root, what, D)


def chk_start(case, rec):
    """Reference creation through search-start shortcuts, chained"""
    ck, spec = case
    conf = H.Conf.of(ck)
    D = conf.depth
    for c1 in range(conf.S + 1):
        for sp in legal_starts(spec, c1):
            for c2 in range(c1, conf.S + 1):
                for how in itertools.product(("ref", "pos"), repeat=2):
                    x = conf.build(spec)
                    f = conf.root(x)
                    what = (f"{conf.kind} {spec!r}: {how[0]}({c1}, "
                            f"start_pos={sp}); {how[1]}({c2}, start_pos="
                            f"saved)")
                    m = spec
                    for c, s, h in ((c1, sp, how[0]), (c2, "saved", how[1])):
                        if s == "saved":
                            if sp is None:
                                continue
                            s = f.getSavedPos()
                        if h == "ref":
                            r = f.getPayloadRef(conf.c(c), start_pos=s)
                        else:
                            i = f.getPositionRef(conf.c(c), start_pos=s)
                            require(0 <= i < len(f.coords) and
                                    f.coords[i] == conf.c(c),
                                    "{}: position {}", what, i)
                            r = f.payloads[i]
                        m = put(m, (c,), D, conf.default)
                        eq(conf.raw(x), m, what)
                        require(r is follow(f, conf, (c,)),
                                "{}: not the stored payload", what)
                    rec.step(2)
                    rec.ok()
                    rec.state((ck, m))


def chk_prefix(case, rec):
    """Handles of sub-fibers alias the tree"""
    ck, spec = case
    conf = H.Conf.of(ck)
    D = conf.depth
    for k in range(1, D):
        for p1 in pts(conf, k, 0):
            for rest in pts(conf, D - k, 0):
                for a in ("noop", "set", "add", "default"):
                    x = conf.build(spec)
                    what = f"{conf.kind} {spec!r}: ref{p1}.ref{rest} {a}"
                    h = x.getPayloadRef(*map(conf.c, p1))
                    r = h.getPayloadRef(*map(conf.c, rest))
                    m = put(spec, p1 + rest, D, conf.default)
                    act(r, a, conf)
                    if fn(conf, a):
                        m = put(m, p1 + rest, D, conf.default, fn(conf, a))
                    eq(conf.raw(x), m, what)
                    check_value(conf, what, get(conf, x, p1), m, p1,
                                conf.root(x))
                    require(get(conf, x, p1) is h, "{}: the handle is not what "
                            "a later read returns", what)
                    # assigning a whole fiber through a handle
                    rec.step(3)
                    rec.ok()
                    rec.state((ck, m))
            for i, o in enumerate(H.operands(conf, D - k)):
                x = conf.build(spec)
                h = x.getPayloadRef(*map(conf.c, p1))
                h <<= H.other(conf, D - k, i)
                got = M.content(conf.raw(x), D, conf.default)
                want = {pt: v for pt, v in
                        M.content(spec, D, conf.default).items()
                        if pt[:k] != p1}
                want.update({p1 + pt: v for pt, v in
                             M.content(o, D - k, conf.default).items()})
                eq(got, want, f"{conf.kind} {spec!r}: ref{p1} <<= {o!r}")
                rec.step()
                rec.ok()


def chk_rank0(case, rec):
    v, kind = case
    t = Tensor(rank_ids=[]) if kind == "empty" else \
        Tensor.fromUncompressed(root=v)
    if kind == "empty":
        v = 0
    p = t.getPayload()
    require(isinstance(p, Payload) and p.value == v, "rank-0 read: {!r}", p)
    r = t.getPayloadRef()
    require(r is t.getPayloadRef() and r is t.getPayload(),
            "rank-0 reference does not alias")
    r += 3
    eq(t.getPayload().value, v + 3, "rank-0 +=")
    r <<= 9
    eq(t.getPayload().value, 9, "rank-0 <<=")
    rec.step(5)
    rec.ok()
    rec.state(case)


# ---------------------------------------------------------------- mutators

def leaf_apply(o, old, v):
    return {"<<=": lambda: v, "+=": lambda: old + v, "-=": lambda: old - v,
            "*=": lambda: old * v, "/=": lambda: old / v,
            "|=": lambda: old | v, "&=": lambda: old & v}[o]()


def under(conf, path, d, sub):
    """sub: a spec of depth d placed under path, as content"""
    return {path + pt: v
            for pt, v in M.content(sub, d, conf.default).items()}


def pay(conf, d, k):
    """content of H.payload(conf, d, k) as a spec element"""
    if d == 1:
        return (conf.default, conf.vals[-1])[k] if k < 2 else conf.vals[0]
    return H.operands(conf, d - 1)[k]


def clash(spec, d, default):
    """explicit defaults or empty sub-fibers stored somewhere"""
    return any(M.is_empty(s, d, default) if d == 1 else
               (M.is_empty(s, d - 1, default) if not isinstance(s, int)
                else s == default) or clash(s, d - 1, default)
               for _, s in spec) if d > 1 else \
        any(s == default for _, s in spec)


def effect(conf, spec, op):
    """Content after op, or None where C03 does not fix it.  Written from the
    meaning of the operations alone."""
    m = M.content(spec, conf.depth, conf.default)
    D = conf.default

    def drop(prefix):
        return {pt: v for pt, v in m.items() if pt[:len(prefix)] != prefix}

    def put(pt, v):
        out = dict(m)
        out.pop(pt, None)
        if v != D:
            out[pt] = v
        return out
    kind = op[0]
    if kind in ("wform", "eform") and op[-1] == "float" and op[-2] in "|=&=":
        return None         # not an operation of numbers
    if kind == "ghost":
        # writing into what a read of a missing path delivered
        return None if want_at(conf, spec, op[1])[0] else m
    if kind == "ref":
        return m
    if kind == "set":
        return put(op[1], op[2])
    if kind == "acc":
        return put(op[1], m.get(op[1], D) + op[2])
    if kind == "wform":
        v = True if op[3] == "bool" else conf.vals[-1]
        return put(op[1], leaf_apply(op[2], m.get(op[1], D), v))
    if kind == "assign":
        d = conf.depth - len(op[1])
        return {**drop(op[1]), **under(conf, op[1], d,
                                       H.operands(conf, d)[op[2]])}
    if kind == "ucoords":
        _, dd, fn, _ = op
        if fn == "bypos" or clash(spec, conf.depth, D):
            return None
        g = H.CFUN[fn](conf.S)
        if H.violates_order(conf, spec, op):
            return m
        return {pt[:dd] + (g(0, pt[dd], None),) + pt[dd + 1:]: v
                for pt, v in m.items()}
    if kind == "upay":
        _, dd, fn = op
        if fn in ("same", "copy"):
            return m
        if fn == "inc":
            m = {pt: v + 1 for pt, v in m.items()}
        elif fn in ("plain", "const", "zero"):
            m = {pt: {"plain": 2, "const": 1, "zero": D}[fn] for pt in m}
        elif fn in ("fresh", "empty"):
            sub = H.operands(conf, conf.depth - dd - 1)[fn == "fresh"]
            m = {pt[:dd + 1] + q: v for pt in m for q, v in
                 M.content(sub, conf.depth - dd - 1, D).items()}
        else:
            return None
        return {pt: v for pt, v in m.items() if v != D}
    if kind not in ("append", "insert", "iol", "extend", "ilshift", "setitem",
                    "clear", "aform", "iform", "eform", "sform", "range",
                    "ishape", "iactive", "coiter"):
        return None
    path, d = op[1], op[2]
    s = H.sub_at(spec, path)
    cs = [c for c, _ in s]
    if kind in ("range", "ishape", "iactive", "coiter"):
        return m
    if kind == "clear":
        return drop(path)
    if kind == "ilshift":
        return {**drop(path), **under(conf, path, d,
                                      H.operands(conf, d)[op[3]])}
    if kind == "extend":
        o = H.operands(conf, d)[op[3]]
        if cs and o and o[0][0] <= cs[-1]:
            return m
        return {**m, **under(conf, path, d, o)}
    if kind == "eform":
        _, _, _, pos, o, form = op
        v = True if form == "bool" else conf.vals[-1]
        pt = path + (cs[pos],)
        return put(pt, leaf_apply(o, s[pos][1], v))
    if kind == "sform":
        return None
    if kind == "setitem":
        pos, c, k = op[3:]
        if pos == "slice" or not -len(cs) <= pos < len(cs) \
                or H.violates_order(conf, spec, op):
            return m
        old = cs[pos]
        new = old if c is None else c
        sub = s[pos][1] if k is None else pay(conf, d, k)
        rest = drop(path + (old,))
        return {**rest, **under(conf, path, d, ((new, sub),))}
    c, k = op[3], op[4]
    if kind in ("aform", "iform"):
        v = True if k == "bool" else conf.vals[-1]
        if kind == "aform":
            return m if cs and c <= cs[-1] else put(path + (c,), v)
        return m if c in cs else put(path + (c,), v)
    if kind == "append" and cs and c <= cs[-1]:
        return m
    if c in cs:
        return m
    return {**m, **under(conf, path, d,
                         () if k is None else ((c, pay(conf, d, k)),))}


def chk_effect(case, rec):
    """Every mutator once, from a tree that was read before, then every read;
    then a write at every point"""
    ck, spec = case
    conf = H.Conf.of(ck)
    for op in H.ops(conf, spec, "forms"):
        if conf.tup and op[0] in ("range", "ishape", "iactive", "coiter"):
            continue        # a rank of tuples has no dense iteration
        want = effect(conf, spec, op)
        x = conf.build(spec)
        what = f"{conf.kind} {spec!r} after {op!r}"
        all_reads(conf, x, spec, what + " (before)")
        try:
            H.do(conf, x, op)
        except RecursionError:
            raise
        except Exception as e:
            what += f" (rejected: {type(e).__name__}: {e})"
        after = conf.raw(x)
        if want is not None:
            eq(M.content(after, conf.depth, conf.default), want, what)
        before = M.snap(x)
        all_reads(conf, x, after, what)
        require(M.snap(x) == before, "{}: a read changed the tree", what)
        rec.step()
        rec.outcome(after)
    rec.state(("effect", ck, spec))
    rec.ok()


def inv_reads(conf, x, what):
    if not isinstance(conf.raw(x), tuple):
        return
    all_reads(conf, x, conf.raw(x), what)


def chk_hist(case, rec):
    H.explore(H.Conf.of(case[0]), case[1], rec, inv_reads)


def confs(tier):
    C = H.Conf
    q = tier == "quick"
    for kind in ("fiber", "tensor"):
        yield f"{kind}1", C(kind, 1, 3, 0, (1, 2))
        yield f"{kind}1-default3", C(kind, 1, 3, 3, (1,))
        yield f"{kind}1-tuple", C(kind, 1, 3, 0, (1,), tup=True)
        yield f"{kind}1-U", C(kind, 1, 3, 0, (1,), "U")
        yield f"{kind}2", C(kind, 2, 2, 0, (1,))
        yield f"{kind}2-est", C(kind, 2, 2, 0, (1,), "C", False)
        yield f"{kind}3", C(kind, 3, 2, 0, (1,), few=True)
        if not q:
            yield f"{kind}1-4", C(kind, 1, 4, 0, (1, 2))
            yield f"{kind}2-wide", C(kind, 2, 3, 0, (1,), few=True)
            yield f"{kind}2-vals", C(kind, 2, 2, 0, (1, 2))
            yield f"{kind}2-tuple", C(kind, 2, 3, 0, (1,), few=True, tup=True)
        if kind == "tensor":
            yield f"{kind}2-default3", C(kind, 2, 2, 3, (1,))
            yield f"{kind}2-U", C(kind, 2, 2, 0, (1,), "U")
            yield f"{kind}3-default3", C(kind, 3, 2, 3, (1,), few=True)


def large_step(conf, x, op, before, what):
    after = conf.raw(x)
    if op is None:
        return
    want = effect(conf, before, op)
    got = M.content(after, conf.depth, conf.default)
    if want is not None and got != want:
        d = sorted(k for k in set(got) | set(want)
                   if got.get(k) != want.get(k))
        raise Violation(f"{what}: content differs at {d[:4]}: "
                        f"{[got.get(k) for k in d[:4]]}, expected "
                        f"{[want.get(k) for k in d[:4]]}")
    # reads of the points around the operation and at fixed places
    N = conf.S
    near = op[1] if op[0] in ("set", "ref", "acc", "assign") else \
        (op[3],) if op[0] in ("insert", "iol", "append") else (N // 2,)
    for c in {near[0], near[0] + 1, 0, N // 2, N - 1, N}:
        pt = (c,) + ((c % 2, c % 3)[:conf.depth - 1])
        check_value(conf, f"{what}: getPayload{pt}", get(conf, x, pt), after,
                    pt, conf.root(x))
        s = M.lookup(after, c)
        p = x.getPayload(c, allocate=False) if conf.kind == "tensor" else \
            conf.root(x).getPayload(c, allocate=False)
        require((p is None or M.unbox(p) is None) if s is None else
                p is follow(conf.root(x), conf, (c,)),
                "{}: getPayload({}, allocate=False) is {!r}", what, c, p)
        f = conf.root(x)
        i = M.unbox(f.getPosition(c))
        require(i is None if s is None else i == f.coords.index(c) or
                i is None and M.is_empty(s, conf.depth - 1, conf.default),
                "{}: getPosition({}) is {!r}", what, c, i)


def families(tier):
    out = []

    def add(name, conf, chk, tag):
        def gen():
            for s in conf.initial():
                if conf.kind == "fiber" and conf.depth > 2 and s == ():
                    continue
                yield conf.key(), s
        out.append(Family(f"{tag}-{name}", gen, chk,
                          f"{conf.kind} depth {conf.depth} shape {conf.shape} "
                          f"values {(conf.default,) + conf.vals}"))
    for name, conf in confs(tier):
        add(name, conf, chk_read, "read")
        if conf.depth < 3:
            add(name, conf, chk_refs, "refs")
        add(name, conf, chk_start, "start")
        if conf.depth > 1:
            add(name, conf, chk_prefix, "prefix")
    C = H.Conf
    q = tier == "quick"
    for kind in ("fiber", "tensor"):
        for name, conf in (
                (f"{kind}1", C(kind, 1, 3, 0, (1,))),
                (f"{kind}1-default3", C(kind, 1, 3, 3, (1,))),
                (f"{kind}1-tuple", C(kind, 1, 3, 0, (1,), tup=True)),
                (f"{kind}2", C(kind, 2, 2, 0, (1,), hist=1)),
                (f"{kind}2-est", C(kind, 2, 2, 0, (1,), "C", False, hist=1))):
            add(name, conf, chk_effect, "effect")
        for name, conf in (
                (f"{kind}1", C(kind, 1, 2 if q else 3, 0, (1,), hist=2)),
                (f"{kind}2", C(kind, 2, 2, 0, (1,), hist=1, few=q))):
            add(name, conf, chk_hist, "history")
    add("tensor2-default3", C("tensor", 2, 2, 3, (1,)), chk_effect, "effect")
    if not q:
        add("tensor3", C("tensor", 3, 2, 0, (1,), few=True), chk_effect,
            "effect")
    else:
        conf = C("tensor", 3, 2, 0, (1,), few=True)
        out.append(Family("effect-tensor3", lambda conf=conf: (
            (conf.key(), s) for i, s in enumerate(conf.initial())
            if i % 12 == 7), chk_effect, "depth 3, every 12th tree"))
    for kind in ("fiber", "tensor"):
        for tag, chk, N in (("read", chk_read, 20), ("start", chk_start, 12),
                            ("read", chk_read, 68)):
            for d, fmt in ((0, "C"), (3, "C"), (0, "U")):
                conf = H.Conf(kind, 1, N, d, (1,), fmt)
                out.append(Family(
                    f"{tag}-{kind}-{'long' if N < 50 else 'large'}{d}{fmt}",
                    lambda conf=conf, N=N, d=d: (
                        (conf.key(), s) for s in M.wide(
                            N, lambda p: p[0] % 2 + 1, d)),
                    chk, f"{kind} of {N} coordinates, 26 long fibers, "
                    f"default {d}, format {fmt}"))
    from . import c01
    out += c01.large(tier, ("fiber", "tensor"), large_step)
    out.append(Family("rank0", lambda: itertools.product(
        (0, 4, -1, 2.5), ("empty", "value")), chk_rank0, "rank-0 tensors"))
    return out
