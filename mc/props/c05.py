"""C05: populate (z << a) offers exactly a's coordinates and keeps only what
was written."""

import itertools

from fibertree import Fiber, Payload, Tensor

from ..core import Family, Violation, eq, require
from .. import model as M

RULE = ("every destination tree x every source tree x every loop body (one "
        "action per offered coordinate, nested loops recursively); the offered "
        "sequence, the tree and the rank lists are compared with a reference "
        "interpreter at every yield and after the loop")
ASSUMPTIONS = ["the body changes z only through the offered references "
               "(point writes below them, nested loops, assignment)",
               "an early exit from the loop (break) leaves the offered "
               "reference in place; only content and well-formedness are "
               "required there"]


class Cfg:

    def __init__(self, key):
        (self.depth, self.S, self.zkind, self.zdef, self.adef, self.zfmt,
         self.afmt, self.aact, self.mode) = key


def build(spec, cfg, default, kind, fmt, active, ranks):
    shape = [cfg.S] * cfg.depth
    if kind == "fiber":
        f = M.mk_fiber(spec, cfg.depth, default, shape)
        if fmt != "C":
            f.getRankAttrs().setFormat(fmt)
        x = f
    else:
        x = M.mk_tensor(spec, cfg.depth, shape, default, ranks,
                        fmts=[fmt] * cfg.depth, name="T")
        f = x.getRoot()
    if active is not None:
        f.setActive(active)
    return x, f


def attrs(x):
    """What a populate may never change besides the tree"""
    if isinstance(x, Tensor):
        return (tuple(x.getRankIds()), tuple(x.getShape()), x.getName(),
                repr(x.getDefault()), tuple(x.getFormat(r)
                                            for r in x.getRankIds()))
    return (x.getRankAttrs().getId(), x.getRankAttrs().getFormat(),
            repr(x.getDefault()), x.getShape(all_ranks=False))


def no_empty(sub, d, default):
    return M.is_empty(sub, d, default)


class World:
    """The whole destination (live and model), so that it can be checked in
    full at any time"""

    def __init__(self, cfg, zspec, aspec):
        self.cfg = cfg
        self.z, self.zf = build(zspec, cfg, cfg.zdef, cfg.zkind, cfg.zfmt,
                                None, ["M", "N", "K"][:cfg.depth])
        self.a, self.af = build(aspec, cfg, cfg.adef, "tensor", cfg.afmt,
                                cfg.aact, ["A", "B", "C"][:cfg.depth])
        self.abefore = M.snap(self.a)
        self.zattrs = attrs(self.z)
        self.model = thaw(zspec, cfg.depth)     # nested dicts
        self.what = ""

    def check(self, at, src=True):
        what = f"{self.what} {at}"
        eq(M.raw(self.zf), freeze(self.model), f"{what}: destination tree")
        r = M.ill_formed(self.zf, self.cfg.depth)
        require(r is None, "{}: ill-formed destination: {}", what, r)
        if isinstance(self.z, Tensor):
            r = M.mirror_error(self.z)
            require(r is None, "{}: destination ranks: {}", what, r)
        require(not src or M.snap(self.a) == self.abefore,
                "{}: the source was modified", what)
        require(attrs(self.z) == self.zattrs,
                "{}: attributes of the destination changed: {} -> {}", what,
                self.zattrs, attrs(self.z))


def thaw(spec, d):
    return {c: (s if d == 1 else thaw(s, d - 1)) for c, s in spec}


def freeze(m):
    return tuple((c, freeze(s) if isinstance(s, dict) else s)
                 for c, s in sorted(m.items()))


def empty(m, default):
    if isinstance(m, dict):
        return all(empty(s, default) for s in m.values())
    return m == default


# ---------------------------------------------------------------- the loop

def offered(cfg, f, spec, d, top):
    """(coordinate, stored payload or None) the source presents"""
    st = dict(zip(f.coords, f.payloads))
    if cfg.afmt == "U":
        lo, hi = cfg.aact if (top and cfg.aact is not None) else (0, cfg.S)
        return [(c, st.get(c)) for c in range(lo, hi)]
    return [(c, st[c]) for c, _ in M.present(spec, d, cfg.adef)]


def a_spec(spec, c):
    s = M.lookup(spec, c)
    return () if s is None else s


def loop(w, zf, zm, af, aspec, d, plan, rec, path=(), top=True,
         start_pos=None, brk=None):
    """Run z << a on live zf with model zm; plan: list of actions, one per
    offered coordinate"""
    cfg = w.cfg
    want = offered(cfg, af, aspec, d, top)
    dflt = cfg.zdef
    kept = {c: p for c, p in zip(zf.coords, zf.payloads)}
    lazy = (zf << af) if start_pos is None \
        else zf.__lshift__(af, start_pos=start_pos)
    got = []
    for c, pr in lazy:
        at = f"at {path + (c,)}"
        i = len(got)
        require(i < len(want) and want[i][0] == c,
                "{} {}: offered {} after {}, expected {}", w.what, at, c, got,
                [x for x, _ in want])
        got.append(c)
        pr = pr.value if isinstance(pr, Payload) else pr
        ref, ap = pr
        if want[i][1] is not None:
            require(ap is want[i][1], "{} {}: source payload is not the "
                    "stored one: {!r}", w.what, at, ap)
        elif d == 1:
            require(isinstance(ap, Payload) and ap.value == cfg.adef,
                    "{} {}: source payload {!r} of an absent coordinate",
                    w.what, at, ap)
        else:
            require(isinstance(ap, Fiber) and len(ap.coords) == 0,
                    "{} {}: source payload {!r} of an absent coordinate",
                    w.what, at, ap)
        if c in kept:
            require(ref is kept[c], "{} {}: the reference is not z's stored "
                    "payload", w.what, at)
        else:
            if d == 1:
                require(isinstance(ref, Payload) and ref.value == dflt,
                        "{} {}: reference to absent coordinate shows {!r}",
                        w.what, at, ref)
            else:
                require(isinstance(ref, Fiber) and len(ref.coords) == 0,
                        "{} {}: reference to absent coordinate shows {!r}",
                        w.what, at, ref)
        # while the body runs the element is in the tree
        if c not in zm:
            zm[c] = dflt if d == 1 else {}
        w.check(at + " (offered)", False)
        require(any(ref is p for p in zf.payloads), "{} {}: the reference is "
                "not in z", w.what, at)
        act = plan[i]
        if isinstance(act, tuple) and act[0] == "ins":
            # another element of z is written while the loop is inside the
            # body; the offered references are unaffected
            x, act = act[1], act[2]
            r = zf.getPayloadRef(*act_point(x, d))
            r <<= 8
            m = zm
            pt = act_point(x, d)
            for y in pt[:-1]:
                m = m.setdefault(y, {})
            m[pt[-1]] = 8
            kept = {y: p for y, p in zip(zf.coords, zf.payloads)
                    if y != c or y in kept}
            w.check(at + f" (inserted {x})", False)
        if d == 1:
            leaf(w, ref, zm, c, act, ap)
        else:
            interior(w, ref, zm, c, act, ap, a_spec(aspec, c), d - 1, rec,
                     path + (c,))
        rec.step()
        w.check(at + f" (after {act!r})", d == 1)
        if brk == i:
            return
        if empty(zm[c], dflt):
            del zm[c]
    eq(got, [c for c, _ in want], f"{w.what} at {path}: offered coordinates")
    w.check(f"at {path} (after the loop)")
    for c, p in kept.items():
        if c in zm:
            require(zf.payloads[zf.coords.index(c)] is p,
                    "{}: payload at {} replaced", w.what, path + (c,))


def act_point(x, d):
    return (x,) + (0,) * (d - 1)


def leaf(w, ref, zm, c, act, ap):
    d = w.cfg.zdef
    if act == "leave":
        return
    if act == "acc":
        ref += ap
        zm[c] = zm[c] + M.unbox(ap)
    elif act == "copy":
        ref <<= ap
        zm[c] = M.unbox(ap)
    elif act == "undo":
        old = zm[c]
        ref += 3
        ref -= 3
    elif act == "mul0":
        ref *= 0
        zm[c] = 0
    elif act[0] == "set":
        ref <<= act[1]
        zm[c] = act[1]
    else:
        raise KeyError(act)


def interior(w, ref, zm, c, act, ap, aspec, d, rec, path):
    dflt = w.cfg.zdef
    if act == "leave":
        return
    if act == "look":
        list(ref)
        len(ref)
        ref.getPayload(*[0] * d)
    elif act[0] == "pt":
        r = ref.getPayloadRef(*act[1])
        r <<= act[2]
        m = zm[c]
        for x in act[1][:-1]:
            m = m.setdefault(x, {})
        m[act[1][-1]] = act[2]
    elif act[0] == "assign":
        ref <<= M.mk_fiber(act[1], d, dflt, [w.cfg.S] * d)
        zm[c] = thaw(act[1], d)
    elif act == "clear":
        ref.clear()
        zm[c] = {}
    elif act[0] == "nest":
        loop(w, ref, zm[c], ap, aspec, d, act[1], rec, path, False)
    else:
        raise KeyError(act)


# ---------------------------------------------------------------- plans

LEAF = ("leave", "acc", ("set", 7), "default", "undo")


def leaf_acts(cfg, acts):
    return [("set", cfg.zdef) if a == "default" else a for a in acts]


def chk_ins(case, rec):
    """One body also writes another element of z, at any place"""
    key, zspec, aspec = case
    cfg = Cfg(key)
    n = len(n_offered(cfg, aspec, cfg.depth, True))
    if cfg.depth == 1:
        acts = leaf_acts(cfg, ("leave", ("set", 7), "default"))
    else:
        acts = ["leave", "clear", ("pt", (1,), 7), ("pt", (0,), cfg.zdef)]
    for i in range(n):
        for plan in itertools.product(*[acts if j == i else acts[:2]
                                        for j in range(n)]):
            for x in range(cfg.S + 1):
                p = list(plan)
                p[i] = ("ins", x, p[i])
                run(cfg, key, zspec, aspec, tuple(p), rec)


def n_offered(cfg, aspec, d, top):
    if cfg.afmt == "U":
        lo, hi = cfg.aact if (top and cfg.aact is not None) else (0, cfg.S)
        return list(range(lo, hi))
    return [c for c, _ in M.present(aspec, d, cfg.adef)]


def plans(cfg, aspec, d, top=True, rich=2):
    """All bodies for a loop over aspec"""
    cs = n_offered(cfg, aspec, d, top)
    per = []
    for c in cs:
        if d == 1:
            per.append(leaf_acts(cfg, LEAF if rich == 2 else
                                 ("leave", "acc", "default")))
            continue
        o = ["leave", "clear"] + (["look"] if rich == 2 else [])
        pts = [tuple([0] * (d - 1)), tuple([cfg.S - 1] * (d - 1))]
        for p in pts:
            o.append(("pt", p, 7))
            o.append(("pt", p, cfg.zdef))
        if rich == 2:
            v = tuple((x, 8) for x in range(cfg.S))
            for _ in range(d - 2):
                v = ((0, v),)
            o.append(("assign", v))
            o.append(("assign", ()))
        for pl in plans(cfg, a_spec(aspec, c), d - 1, False, min(rich, 1)):
            o.append(("nest", pl))
        per.append(o)
    return list(itertools.product(*per))


# ---------------------------------------------------------------- families

def zval(pt):
    return 1


def aval(pt):
    """some sums with zval give the defaults 0 and 5"""
    return (-1, 0.5, 4, 3)[pt[-1] % 4]


def fspecs(S, val, d, explicit=True):
    return M.specs((S,), val, d, explicit=explicit)


def chk_leaf(case, rec):
    key, zspec, aspec = case
    cfg = Cfg(key)
    for plan in plans(cfg, aspec, 1):
        run(cfg, key, zspec, aspec, plan, rec)


def chk_long(case, rec):
    key, zspec, aspec, k = case
    cfg = Cfg(key)
    acts = leaf_acts(cfg, LEAF)
    n = len(n_offered(cfg, aspec, 1, True))
    run(cfg, key, zspec, aspec,
        tuple(acts[(i + k) % len(acts)] for i in range(n)), rec)


def run(cfg, key, zspec, aspec, plan, rec, **kw):
    w = World(cfg, zspec, aspec)
    w.what = f"z={zspec!r} << a={aspec!r} body={plan!r} {kw or ''}:"
    loop(w, w.zf, w.model, w.af, aspec, cfg.depth, plan, rec, **kw)
    rec.state((key, zspec, aspec, plan, tuple(kw.items())))
    rec.outcome(freeze(w.model))
    rec.ok()
    return w


def gen_leaf(keys):
    def gen():
        for key in keys:
            cfg = Cfg(key)
            for z in fspecs(cfg.S, zval, cfg.zdef):
                for a in fspecs(cfg.S, aval, cfg.adef):
                    yield (key, z, a)
    return gen


def subs(S, d, val, default, few):
    """specs of depth d; few: 0 all, 1 a covering subset"""
    if d == 1:
        if few:
            out = [(), ((0, default),), ((S - 1, val((S - 1,))),),
                   ((0, val((0,))), (S - 1, default))]
            return out
        return fspecs(S, val, default)
    low = subs(S, d - 1, val, default, few)
    opts = [[None] + [(c, s) for s in low] for c in range(S)]
    return [tuple(x for x in combo if x is not None)
            for combo in itertools.product(*opts)]


def gen_deep(keys, fz, fa, rich):
    def gen():
        for key in keys:
            cfg = Cfg(key)
            for z in subs(cfg.S, cfg.depth, zval, cfg.zdef, fz):
                for a in subs(cfg.S, cfg.depth, aval, cfg.adef, fa):
                    yield (key, z, a, rich)
    return gen


def chk_deep(case, rec):
    key, zspec, aspec, rich = case
    cfg = Cfg(key)
    for plan in plans(cfg, aspec, cfg.depth, True, rich):
        run(cfg, key, zspec, aspec, plan, rec)


def few_plans(cfg, aspec, d, top=True):
    """Fully nested loops only"""
    cs = n_offered(cfg, aspec, d, top)
    per = []
    for c in cs:
        if d == 1:
            per.append(leaf_acts(cfg, ("leave", "copy", "default")))
        else:
            per.append([("nest", pl) for pl in
                        few_plans(cfg, a_spec(aspec, c), d - 1, False)])
    return list(itertools.product(*per))


def chk_nest3(case, rec):
    key, zspec, aspec = case
    cfg = Cfg(key)
    for plan in few_plans(cfg, aspec, cfg.depth):
        run(cfg, key, zspec, aspec, plan, rec)


def gen_nest3(keys):
    def gen():
        for key in keys:
            cfg = Cfg(key)
            S, z, a = cfg.S, cfg.zdef, cfg.adef

            def line(v, d0):
                lf = [(), ((0, v),), ((1, v),), ((0, d0), (1, v))]
                mid = [(), ((0, lf[1]),), ((1, lf[3]),),
                       ((0, lf[2]), (1, lf[1])), ((0, ()), (1, ((0, d0),)))]
                return [tuple(x for x in c if x is not None)
                        for c in itertools.product(
                            [None] + [(0, m) for m in mid],
                            [None] + [(1, m) for m in mid])]
            for x in line(1, z):
                for y in line(2, a):
                    yield (key, x, y)
    return gen


def chk_start(case, rec):
    """Search-start shortcuts never change the outcome"""
    key, zspec, aspec = case
    cfg = Cfg(key)
    cs = n_offered(cfg, aspec, cfg.depth, True)
    zc = [c for c, _ in zspec]
    for p in range(len(zc) + 1):
        if cs and p and not cs[0] > zc[p - 1]:
            continue
        for plan in plans(cfg, aspec, 1):
            w = run(cfg, key, zspec, aspec, plan, rec, start_pos=p)
            follow_up(w, cs, rec)


def follow_up(w, cs, rec):
    """The position saved by the loop is a legal start for the next search at
    or above the last coordinate"""
    sp = w.zf.getSavedPos()
    if sp is None or not cs:
        return
    z = freeze(w.model)
    for c in range(cs[-1], w.cfg.S + 1):
        want = M.lookup(z, c)
        p = w.zf.getPayload(c, start_pos=sp, allocate=False)
        got = M.unbox(p)
        eq(got, want, f"{w.what} getPayload({c}, start_pos={sp}) after the "
           "loop")


def chk_twice(case, rec):
    """The same populate object iterated twice, and two different populates in
    sequence"""
    key, zspec, a1, a2 = case
    cfg = Cfg(key)
    for same in (False, True):
        for p1 in plans(cfg, a1, 1, True, 1):
            for p2 in plans(cfg, a1 if same else a2, 1, True, 1):
                w = World(cfg, zspec, a1)
                w.what = f"z={zspec!r} << {a1!r} {p1!r} then " \
                         f"{'again' if same else a2!r} {p2!r}"
                loop(w, w.zf, w.model, w.af, a1, 1, p1, rec)
                if not same:
                    w.a, w.af = build(a2, cfg, cfg.adef, "tensor", cfg.afmt,
                                      None, ["A"])
                    w.abefore = M.snap(w.a)
                loop(w, w.zf, w.model, w.af, a1 if same else a2, 1, p2, rec)
                rec.state((case, same, p1, p2))
                rec.ok()
    lz = None


def chk_break(case, rec):
    """Leaving the loop after any body: everything before is settled, nothing
    after is touched"""
    key, zspec, aspec = case
    cfg = Cfg(key)
    for plan in plans(cfg, aspec, cfg.depth, True, 1):
        for i in range(len(plan)):
            run(cfg, key, zspec, aspec, plan, rec, brk=i)


def mask(s, c):
    return c in s


def chk_lazy(case, rec):
    """Sources produced lazily by the co-iteration operators and projection"""
    key, zspec, x, y, op = case
    cfg = Cfg(key)
    for plan in itertools.product(("leave", "sum", "default", "set"),
                                  repeat=cfg.S + 1):
        w = World(cfg, zspec, x)
        b, bf = build(y, cfg, cfg.adef, "tensor", "C", None, ["A"])
        bb = M.snap(b)
        w.what = f"z={zspec!r} << ({x!r} {op} {y!r}) {plan!r}"
        A = M.content(x, 1, cfg.adef)
        B = M.content(y, 1, cfg.adef)
        A, B = {k[0]: v for k, v in A.items()}, {k[0]: v for k, v in B.items()}
        if op == "&":
            src, cs = w.af & bf, sorted(A.keys() & B.keys())
        elif op == "|":
            src, cs = w.af | bf, sorted(A.keys() | B.keys())
        elif op == "-":
            src, cs = w.af - bf, sorted(A.keys() - B.keys())
        elif op == "^":
            src, cs = w.af ^ bf, sorted(A.keys() ^ B.keys())
        elif op == "prune":
            src, cs = w.af.prune(lambda i, c, p: c > 0), \
                [c for c in sorted(A) if c > 0]
        elif op == "project":
            src, cs = w.af.project(lambda c: c + 1), \
                [c + 1 for c in sorted(A)]
        elif op == "reverse":
            src, cs = w.af.project(lambda c: cfg.S - 1 - c), \
                [cfg.S - 1 - c for c in sorted(A, reverse=True)]
        if list(plan[len(cs):]) != ["leave"] * (cfg.S + 1 - len(cs)):
            continue
        got = []
        for c, (ref, p) in w.zf << src:
            act = plan[len(got)]
            got.append(c)
            if act == "sum":
                q = M.unbox(p)
                if isinstance(q, tuple):
                    q = sum(M.unbox(e) for e in q
                            if not isinstance(M.unbox(e), str))
                ref <<= q
                w.model[c] = q
            elif act == "default":
                ref <<= cfg.zdef
                w.model[c] = cfg.zdef
            elif act == "set":
                ref <<= 9
                w.model[c] = 9
            if c in w.model and w.model[c] == cfg.zdef:
                del w.model[c]
            rec.step()
        eq(got, cs, f"{w.what}: offered coordinates")
        w.check("after the loop")
        require(M.snap(b) == bb, "{}: second source operand modified", w.what)
        rec.state((case, plan))
        rec.ok()


def K(depth, S, zkind="tensor", zdef=0, adef=0, zfmt="C", afmt="C", aact=None,
      mode=""):
    return (depth, S, zkind, zdef, adef, zfmt, afmt, aact, mode)


def families(tier):
    q = tier == "quick"
    out = []
    S = 3
    kinds = [K(1, S), K(1, S, "fiber"), K(1, S, "tensor", 5),
             K(1, S, "fiber", 5, 2), K(1, S, zfmt="U")]
    ud = [K(1, S, afmt="U"), K(1, S, afmt="U", aact=(1, 3)),
          K(1, S, "fiber", afmt="U", aact=(0, 2)),
          K(1, S, zdef=5, afmt="U", zfmt="U")]
    out.append(Family("leaf", gen_leaf(kinds), chk_leaf,
                      f"depth 1, shape {S}, all z x all a x 5 actions per "
                      "offered coordinate; owned/unowned, defaults 0/5, z "
                      "compressed/uncompressed"))
    out.append(Family("leaf-u", gen_leaf(ud if not q else ud[:3]), chk_leaf,
                      f"depth 1, shape {S}, uncompressed source with whole "
                      "and restricted active range"))
    if not q:
        out.append(Family("leaf4", gen_leaf([K(1, 4), K(1, 4, "tensor", 5)]),
                          chk_leaf, "depth 1, shape 4"))
    dk = [K(2, 2), K(2, 2, "fiber"), K(2, 2, zdef=5)] + \
        ([] if q else [K(2, 2, zfmt="U"), K(2, 2, afmt="U")])
    out.append(Family("deep", gen_deep(dk, 1 if q else 0, 1, 1 if q else 2),
                      chk_deep, "depth 2, shape 2x2, every plan of leave / "
                      "point write / clear / assign / nested loop"))
    out.append(Family("deep-all", gen_deep([K(2, 2)], 0, 1, 1), chk_deep,
                      "depth 2, shape 2x2, every destination tree"))
    def deep_u():
        key = K(2, 2, afmt="U")
        for z in subs(2, 2, zval, 0, 1):
            for a in ((), ((0, ((1, 2),)),), ((0, ()), (1, ((0, 0), (1, 3)))),
                      ((1, ((0, 2), (1, 3))),)):
                yield (key, z, a)
    out.append(Family("deep-u", deep_u, chk_nest3, "depth 2, uncompressed "
                      "source, fully nested loops"))
    out.append(Family("nest3", gen_nest3([K(3, 2)] if q else
                                         [K(3, 2), K(3, 2, "fiber"),
                                          K(3, 2, zdef=4)]),
                      chk_nest3, "depth 3, shape 2x2x2, fully nested loops, "
                      "36x36 trees"))
    def longs():
        for key in [K(1, 14), K(1, 14, "fiber", 5), K(1, 14, zfmt="U"),
                    K(1, 14, afmt="U", aact=(2, 11))]:
            c = Cfg(key)
            for z in [()] + M.wide(14, zval, c.zdef):
                for a in M.wide(14, aval, c.adef):
                    for k in range(len(LEAF)):
                        yield (key, z, a, k)
    out.append(Family("long", longs, chk_long, "all pairs of 26 long fibers "
                      "over 14 coordinates x 5 cyclic bodies"))
    def large():
        n = 90 if q else 200
        for key in [K(1, n), K(1, n, "fiber", 5), K(1, n, zfmt="U"),
                    K(1, n, afmt="U", aact=(2, n - 3))]:
            c = Cfg(key)
            for z in [()] + M.wide(n, zval, c.zdef)[::4]:
                for a in M.wide(n, aval, c.adef)[::3]:
                    for k in range(len(LEAF)):
                        yield (key, z, a, k)
    out.append(Family("large", large, chk_long, "the same over 90 (thorough: "
                      "200) coordinates, 7 x 9 fibers"))
    out.append(Family("start", gen_leaf([K(1, 3), K(1, 3, "fiber", 5)] if q
                                        else [K(1, 4), K(1, 3, "fiber", 5),
                                              K(1, 3, zfmt="U")]),
                      chk_start, "depth 1, every legal start position, "
                      "follow-up searches from the saved position"))

    def tw():
        for key in [K(1, 3)] + ([] if q else [K(1, 3, zdef=5)]):
            c = Cfg(key)
            for z in fspecs(3, zval, c.zdef):
                for a in fspecs(3, aval, 0, explicit=False):
                    for b in fspecs(3, aval, 0, explicit=False):
                        if not q or len(a) + len(b) < 4:
                            yield (key, z, a, b)
    out.append(Family("sequence", tw, chk_twice,
                      "two populates of the same destination, and the same "
                      "populate twice"))
    out.append(Family("break", gen_deep([K(1, 3), K(2, 2)], 1, 1, 1),
                      lambda case, rec: chk_break(case[:3], rec),
                      "early exit after every body"))

    out.append(Family("insert", gen_leaf([K(1, 3), K(1, 3, "fiber", 5)]
                                         if q else
                                         [K(1, 4), K(1, 3, "fiber", 5),
                                          K(1, 3, afmt="U"),
                                          K(1, 3, zfmt="U", zdef=2)]),
                      chk_ins, "depth 1, one of the bodies also writes any "
                      "other coordinate of z (below, between, at or above the "
                      "offered one)"))
    out.append(Family("insert2", gen_deep([K(2, 2), K(2, 2, zdef=5)], 1,
                                          1, 1),
                      lambda case, rec: chk_ins(case[:3], rec),
                      "depth 2, the same with sub-fibers"))

    def lz():
        for key in [K(1, 2), K(1, 2, zdef=5)] if q else [K(1, 3)]:
            c = Cfg(key)
            for op in ("&", "|", "-", "^", "prune", "project", "reverse"):
                for z in fspecs(c.S, zval, c.zdef):
                    for x in fspecs(c.S, lambda p: 2 + p[0], 0):
                        for y in (fspecs(c.S, lambda p: 5 + p[0], 0)
                                  if op in "&|-^" else [()]):
                            yield (key, z, x, y, op)
    out.append(Family("lazy", lz, chk_lazy,
                      "lazy sources: intersection, union, difference, xor, "
                      "prune, projection, reversal"))
    return out
