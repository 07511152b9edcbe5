"""C01: fibertrees stay well-formed under every history of public mutations."""

from ..core import Family, Violation
from .. import hist as H
from .. import model as M

RULE = ("breadth-first exploration of histories of public mutators on the real "
        "objects from every constructor-made tree of the bound; "
        "well-formedness evaluated in every state reached, including after "
        "rejected operations; order-violating operations that are rejected "
        "must leave the raw tree unchanged")
ASSUMPTIONS = [
    "operations are type-correct (a scalar is never offered as the payload of "
    "an interior fiber nor a fiber as the payload of a leaf fiber)",
    "payload objects handed to append/extend/insert are fresh and unowned",
]


def inv(conf, x, what):
    M.check_fiber(conf.root(x), what, conf.depth)


def fam(name, conf, inv=inv, limit=900):
    def gen():
        for s in conf.initial():
            if conf.kind == "fiber" and conf.depth > 2 and s == ():
                # an empty unowned fiber does not know its depth
                continue
            yield (conf.key(), s)

    def check(case, rec):
        H.explore(H.Conf.of(case[0]), case[1], rec, inv)
    return Family(name, gen, check, f"{conf.kind} depth {conf.depth}, shape "
                  f"{conf.shape}, values {(conf.default,) + conf.vals}, rank "
                  f"format {conf.fmt}, shape "
                  f"{'declared' if conf.auth else 'estimated'}, all histories "
                  f"of <= {conf.hist} hidden-state changing operations from "
                  f"every initial tree{' (3 leaf fibers)' if conf.few else ''}"
                  f"{', tuple coordinates' if conf.tup else ''}", limit)


def confs(tier):
    C = H.Conf
    q = tier == "quick"
    out = []
    for kind in ("fiber", "tensor"):
        for auth in (True, False):
            a = "" if auth else "-est"
            k2 = 1 if q else 2
            out += [(f"{kind}1{a}", C(kind, 1, 3, 0, (1,), "C", auth, 2)),
                    (f"{kind}2{a}", C(kind, 2, 2, 0, (1,), "C", auth, k2))]
            if not q:
                out += [(f"{kind}1{a}-2values",
                         C(kind, 1, 3, 0, (1, 2), "C", auth, 2))]
        out += [(f"{kind}2-2", C(kind, 2, 2, 0, (1,), "C", True, 2, True))]
        out += [(f"{kind}1-default", C(kind, 1, 2, 3, (1,), "C", True, 2)),
                (f"{kind}2-default", C(kind, 2, 2, 3, (1,), "C", True, 1)),
                (f"{kind}1-U", C(kind, 1, 2, 0, (1,), "U", True, 2)),
                (f"{kind}2-U", C(kind, 2, 2, 0, (1,), "U", True, 1)),
                (f"{kind}1-tuple", C(kind, 1, 3, 0, (1,), "C", True, 2, False,
                                     True)),
                (f"{kind}2-tuple", C(kind, 2, 2, 0, (1,), "C", True, 1, False,
                                     True))]
        if not q or kind == "tensor":
            out += [(f"{kind}3", C(kind, 3, 2, 0, (1,), "C", True, 1, True))]
        if not q:
            out += [(f"{kind}3-est", C(kind, 3, 2, 0, (1,), "C", False, 1,
                                       True)),
                    (f"{kind}2-3", C(kind, 2, 3, 0, (1,), "C", True, 1, True)),
                    (f"{kind}1-4", C(kind, 1, 4, 0, (1,), "C", True, 1))]
    return out


def large(tier, kinds, step):
    q = tier == "quick"
    out = []
    for kind in kinds:
        for depth, n in ((1, 130), (2, 66)) if q else ((1, 300), (2, 130),
                                                       (3, 40)):
            for d, fmt, auth in ((0, "C", True), (3, "C", True),
                                 (0, "U", True), (0, "C", False)):
                if q and depth == 2 and (d or fmt == "U"):
                    continue
                out.append(H.large_family(
                    f"large-{kind}{depth}-{d}{fmt}{'' if auth else '-est'}",
                    H.Conf(kind, depth, n, d, (1, 2), fmt, auth), step))
    return out


def inv_step(conf, x, op, before, what):
    f = conf.root(x)
    M.check_fiber(f, what, conf.depth if f.coords else None)


def families(tier):
    return [fam(n, c) for n, c in confs(tier)] + \
        large(tier, ("fiber", "tensor"), inv_step)
