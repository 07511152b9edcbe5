"""C02: a tensor's rank bookkeeping always mirrors its fibertree."""

from ..core import Family, Violation
from .. import hist as H
from .. import model as M
from .. import xform as X
from . import c01

RULE = ("breadth-first exploration of histories of public mutators on real "
        "tensors and all constructors/transforms of all small trees; after "
        "each operation the rank lists are compared by identity with a walk "
        "of the tree from the root")
ASSUMPTIONS = c01.ASSUMPTIONS


def inv(conf, x, what):
    r = M.mirror_error(x)
    if r:
        raise Violation(f"{what}: rank bookkeeping: {r}")


def xform_family(name, depth, shape, specs, auth=True, fmts=None):
    ids = ["M", "N", "K"][:depth]
    al = X.alphabet(depth, shape, ids)

    def gen():
        for s in specs():
            yield s

    def check(s, rec):
        for x in al:
            t = M.mk_tensor(s, depth, shape if auth else None, 0, ids,
                            fmts, fiber_shape=auth)
            try:
                r = X.apply(t, x)
            except Exception:
                # correctness of the transform itself is C08/C09/C13's subject
                r = None
            rec.step()
            what = f"{x!r} of {s!r}"
            e = M.mirror_error(t)
            if e:
                raise Violation(f"operand of {what}: rank bookkeeping: {e}")
            if r is None:
                continue
            e = M.mirror_error(r)
            if e:
                raise Violation(f"result of {what}: rank bookkeeping: {e}")
            rec.state((name, x, M.raw_t(r)))
            # the result keeps mirroring when it is written to afterwards
            try:
                pt = [c for c in _first(r.getRoot())]
                r.getPayloadRef(*pt)
            except Exception:
                pass
            e = M.mirror_error(r) or M.mirror_error(t)
            if e:
                raise Violation(f"result of {what}, after a write: rank "
                                f"bookkeeping: {e}")
            rec.ok()
    return Family(name, gen, check, f"all trees of shape {shape}"
                  f"{'' if auth else ' (estimated shape)'}, formats {fmts}, x "
                  f"{len(al)} constructors/transforms")


def _first(f):
    while isinstance(f, M.Fiber):
        yield 0
        f = f.payloads[0] if f.payloads else f.getDefault()
        if f is M.Fiber:
            f = M.Fiber()


def _ctor(case, rec):
    kind, arg = case
    T = M.Tensor
    if kind == "empty":
        t = T(rank_ids=["A", "B", "C"][:arg])
    elif kind == "shape":
        t = T(rank_ids=["A", "B", "C"][:arg], shape=[2] * arg)
    elif kind == "populated":
        t = T.makePopulated(["A", "B", "C"][:arg], [2] * arg, initial=1,
                            default=0)
    elif kind == "nest":
        t = T.fromUncompressed(["A", "B"], arg)
    elif kind == "random":
        t = T.fromRandom(["A", "B"], [3, 3], [arg[0], arg[0]], 5, seed=arg[1])
    rec.step()
    M.check_tensor(t, repr(case))
    rec.ok()
    rec.state(repr(case))


def ctor_family():
    def gen():
        for d in (1, 2, 3):
            for k in ("empty", "shape", "populated"):
                yield k, d
        for a in M.itertools.product((0, 1), repeat=6):
            yield "nest", [list(a[:3]), list(a[3:])]
        for d in (0.0, 0.3, 0.6, 1.0):
            for seed in range(20):
                yield "random", (d, seed)
    return Family("constructors", gen, _ctor, "every constructor x small "
                  "arguments")


# ------------------------------------------- fibers that left the tree

def _sub(d, v=1):
    spec = v
    for _ in range(d):
        spec = ((0, spec),)
    return M.mk_fiber(spec, d)


DETACH = ("setRoot", "setRoot-copy", "clear", "subclear", "subclear-last",
          "setitem", "setitem-last", "assign-root", "assign-sub", "imul",
          "upay", "populate", "populate-keep")

LATER = ("ref", "ref-new", "append", "insert", "iol", "setitem", "assign",
         "iadd", "imul", "clear", "upay", "extend", "populate", "uncoords")

BACK = ("setRoot", "append", "setitem", "assign", "insert")


def detach(t, k):
    """Take fibers out of the tree of t; False if there is nothing to take"""
    r, D = t.getRoot(), t.getDepth()
    if k == "setRoot":
        t.setRoot(_sub(D))
    elif k == "setRoot-copy":
        t.setRoot(r.copy(preserve_owner=False))
    elif k == "clear":
        r.clear()
    elif k == "assign-root":
        r <<= _sub(D)
    elif k == "imul":
        r *= M.mk_fiber((), D)
    elif k in ("populate", "populate-keep"):
        src = M.Fiber([c for c in r.coords], [1] * len(r.coords))
        for i, (c, (ref, _)) in enumerate(r << src):
            if k == "populate" or i:
                ref.clear()
    elif not r.coords or D < 2:
        return False
    elif k == "subclear":
        r.payloads[0].clear()
    elif k == "subclear-last":
        r.payloads[-1].clear()
    elif k == "setitem":
        r[0] = _sub(D - 1)
    elif k == "setitem-last":
        r[len(r.coords) - 1] = _sub(D - 1)
    elif k == "assign-sub":
        ref = r.getPayloadRef(r.coords[0])
        ref <<= _sub(D - 1, 2)
    elif k == "upay":
        r.updatePayloads(lambda i, c, p: _sub(D - 1), depth=0)
    return True


def later(f, d, k):
    """Change fiber f of depth d"""
    leaf = d == 1
    new = 1 if leaf else _sub(d - 1)
    nxt = (f.coords[-1] + 1) if f.coords else 0
    if k == "ref":
        f.getPayloadRef(*[0] * d)
    elif k == "ref-new":
        f.getPayloadRef(nxt)
    elif k == "append":
        f.append(nxt, new)
    elif k == "insert":
        f.insert(nxt, new)
    elif k == "iol":
        f.insertOrLookup(nxt)
    elif k == "setitem":
        if f.coords:
            f[0] = new
    elif k == "assign":
        f <<= _sub(d)
    elif k == "iadd":
        f += _sub(d)
    elif k == "imul":
        f *= M.mk_fiber((), d)
    elif k == "clear":
        f.clear()
    elif k == "upay":
        f.updatePayloads(lambda i, c, p: new, depth=0)
    elif k == "extend":
        f.extend(M.mk_fiber(((nxt, 1 if leaf else ((0, 1),) if d == 2
                              else ((0, ((0, 1),)),)),), d))
    elif k == "populate":
        for c, (ref, _) in f << M.Fiber([nxt], [1]):
            if leaf:
                ref <<= 1
            else:
                ref.getPayloadRef(*[0] * (d - 1))
    elif k == "uncoords":
        f.updateCoords(lambda i, c, p: c + 1)


def back(t, f, lvl, k):
    """Put the fiber f that left level lvl into the tree again"""
    r = t.getRoot()
    if k == "setRoot":
        if lvl:
            return False
        t.setRoot(f)
        return True
    if lvl != 1:
        return False
    nxt = (r.coords[-1] + 1) if r.coords else 0
    if k == "append":
        r.append(nxt, f)
    elif k == "insert":
        r.insert(nxt, f)
    elif k == "assign":
        ref = r.getPayloadRef(nxt)
        ref <<= f
    elif not r.coords:
        return False
    else:
        r[0] = f
    return True


def held(t):
    """(fiber, level) of every fiber of the tree"""
    out = [(t.getRoot(), 0)]
    for f, lvl in out:
        out += [(p, lvl + 1) for p in f.payloads if isinstance(p, M.Fiber)]
    return out


def live(t):
    return {id(f) for f, _ in held(t)}


def detached_family(name, depth, shape, specs, auth=True):
    ids = ["M", "N", "K"][:depth]

    def build(s):
        return M.mk_tensor(s, depth, shape if auth else None, 0, ids,
                           fiber_shape=auth)

    def check(s, rec):
        def verify(t, what):
            rec.step()
            e = M.mirror_error(t)
            if e:
                raise Violation(f"{what} of {s!r}: rank bookkeeping: {e}")

        for k in DETACH:
            t = build(s)
            if not detach(t, k):
                continue
            verify(t, k)
            n = len(held(build(s)))
            for i in range(n):
                for m in LATER + BACK:
                    t = build(s)
                    old = held(t)
                    detach(t, k)
                    f, lvl = old[i]
                    if id(f) in live(t):
                        break
                    what = f"{k}, then {m} of the former fiber {i}"
                    if m in BACK and m not in LATER:
                        was = M.raw_t(t)
                        if not back(t, f, lvl, m):
                            continue
                    else:
                        was = M.raw_t(t)
                        later(f, depth - lvl, m)
                        if M.raw_t(t) != was:
                            raise Violation(f"{what} of {s!r}: the tree "
                                            "changed")
                    verify(t, what)
                    # the live tree and the former fiber go on
                    for g, l in held(t):
                        later(g, depth - l, "ref-new")
                        verify(t, f"{what}, then an insertion")
                    if id(f) not in live(t):
                        later(f, depth - lvl, "ref-new")
                        verify(t, f"{what}, then another change of it")
            rec.state((name, k, M.raw_t(t)))
            rec.ok()
    return Family(name, specs, check, f"all trees of shape {shape}"
                  f"{'' if auth else ' (estimated shape)'} x {len(DETACH)} "
                  "ways to drop fibers from the tree x every dropped fiber x "
                  f"{len(LATER)} later changes of it and {len(BACK)} ways to "
                  "put it back, then insertions everywhere")


def families(tier):
    q = tier == "quick"
    out = [c01.fam(n, c, inv) for n, c in c01.confs(tier)
           if c.kind == "tensor"]
    v = lambda pt: 1 + pt[0]
    out += [
        ctor_family(),
        xform_family("xform1", 1, [3], lambda: M.specs([3], v)),
        xform_family("xform2", 2, [2, 2], lambda: M.specs([2, 2], v)),
        xform_family("xform2-est", 2, [2, 2], lambda: M.specs([2, 2], v),
                     auth=False),
        xform_family("xform2-U", 2, [2, 2], lambda: M.specs([2, 2], v),
                     fmts=["U", "U"]),
        xform_family("xform3", 3, [2, 2, 2],
                     lambda: M.specs([2, 2, 2], v, explicit=not q,
                                     empties=True)[::1] if not q else
                     M.specs([2, 2, 1], v)),
        detached_family("dropped2", 2, [2, 2], lambda: M.specs([2, 2], v)),
        detached_family("dropped2-est", 2, [2, 2],
                        lambda: M.specs([2, 2], v), auth=False),
        detached_family("dropped3", 3, [2, 2, 2], lambda:
                        M.specs([2, 2, 2] if not q else [2, 1, 1], v)),
    ]
    out += c01.large(tier, ("tensor",), lambda conf, x, op, before, what:
                     M.check_tensor(x, what, conf.depth))
    return out
