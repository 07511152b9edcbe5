"""The value-returning transforms of a tensor, as a finite alphabet (used by
C02, C10 and C14).  Each entry is a literal tuple; ``apply`` executes it."""

import copy
import itertools
import os

from fibertree import Fiber, Payload, Tensor


def alphabet(depth, shape, rank_ids):
    out = [("deepcopy",), ("copy",), ("fromFiber",), ("setRoot",), ("yaml",),
           ("uncompress",), ("nonEmpty",), ("updatePayloads", depth - 1)]
    for d in range(depth):
        out.append(("updateCoords", d))
    for perm in itertools.permutations(rank_ids):
        out.append(("swizzle", perm))
    for d in range(depth - 1):
        out.append(("swap", d))
        for lv in range(1, depth - d):
            for st in ("tuple", "pair", "linear"):
                out.append(("flatten", d, lv, st))
            for st in ("tuple", "pair"):
                out.append(("flatunflat", d, lv, st))
            for st in ("absolute", "relative"):
                out.append(("merge", d, lv, st))
    for d in range(depth):
        for rel in (False, True):
            out.append(("uniform", d, 2, rel))
            out.append(("nonuniform", d, (0, 1), rel))
            out.append(("nonuniform", d, (1,), rel))
            out.append(("equal", d, 1, rel))
            out.append(("equal", d, 2, rel))
            out.append(("unequal", d, (1, 1), rel))
        out.append(("uniform-halo", d, 2))
        out.append(("splitflat", d, 2))
    out += [("div", 2), ("floordiv", 2)]
    return out


def apply(t, x):
    k = x[0]
    if k == "deepcopy":
        return copy.deepcopy(t)
    if k == "copy":
        return Tensor.fromFiber(copy.deepcopy(t.getRankIds()),
                                t.getRoot().copy(preserve_owner=False))
    if k == "fromFiber":
        return Tensor.fromFiber(copy.deepcopy(t.getRankIds()), t.getRoot(),
                                t.getShape(), default=t.getDefault())
    if k == "setRoot":
        r = Tensor(rank_ids=copy.deepcopy(t.getRankIds()), shape=t.getShape(),
                   default=t.getDefault())
        r.getPayloadRef(*[0] * t.getDepth())
        r.setRoot(t.getRoot())
        return r
    if k == "yaml":
        path = os.path.join(os.environ["MC_SCRATCH"], f"{os.getpid()}.yaml")
        t.dump(path)
        r = Tensor.fromYAMLfile(path)
        os.unlink(path)
        return r
    if k == "uncompress":
        return Tensor.fromUncompressed(copy.deepcopy(t.getRankIds()),
                                       t.getRoot().uncompress(t.getShape()))
    if k == "nonEmpty":
        return Tensor.fromFiber(copy.deepcopy(t.getRankIds()), t.getRoot().nonEmpty(),
                                t.getShape())
    if k == "updatePayloads":
        return t.updatePayloads(lambda i, c, p: p + 1, depth=x[1])
    if k == "updateCoords":
        return t.updateCoords(lambda i, c, p: c + 1, depth=x[1],
                              new_shape=t.getShape()[x[1]] + 1)
    if k == "swizzle":
        return t.swizzleRanks(list(x[1]))
    if k == "swap":
        return t.swapRanks(depth=x[1])
    if k == "flatten":
        return t.flattenRanks(depth=x[1], levels=x[2], coord_style=x[3])
    if k == "flatunflat":
        f = t.flattenRanks(depth=x[1], levels=x[2], coord_style=x[3])
        return f.unflattenRanks(depth=x[1], levels=x[2])
    if k == "merge":
        return t.mergeRanks(depth=x[1], levels=x[2], coord_style=x[3],
                            merge_fn=lambda ps: sum(p.value for p in ps))
    if k == "uniform":
        return t.splitUniform(x[2], depth=x[1], relativeCoords=x[3])
    if k == "uniform-halo":
        return t.splitUniform(x[2], depth=x[1], pre_halo=1, post_halo=1)
    if k == "nonuniform":
        return t.splitNonUniform(list(x[2]), depth=x[1], relativeCoords=x[3])
    if k == "equal":
        return t.splitEqual(x[2], depth=x[1], relativeCoords=x[3])
    if k == "unequal":
        return t.splitUnEqual(list(x[2]), depth=x[1], relativeCoords=x[3])
    if k == "splitflat":
        return t.splitUniform(x[2], depth=x[1]).flattenRanks(
            depth=x[1], levels=1, coord_style="absolute")
    if k == "div":
        return t / x[1]
    if k == "floordiv":
        return t // x[1]
    raise KeyError(k)
