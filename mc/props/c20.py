"""C20 - encoding a tensor in a compression format loses nothing."""

import itertools

from fibertree import Payload
from fibertree.codec.tensor_codec import Codec

from .. import model as M
from ..core import Family, Violation, eq, require

RULE = ("Every tensor of the bound (absent fibers, stored empty fibers, "
        "explicit zeros, all-zero) is encoded by the real Codec under every "
        "descriptor over {U, C, B}, without and with imposed shapes; an "
        "independent decoder that knows only the layout (implicit positions, "
        "explicit coordinates, masks, segment ends) must give back the "
        "content and consume every array entirely; the tree of encoded fibers "
        "is scanned from the first fiber through setupSlice / nextInSlice / "
        "handleToCoord / handleToPayload / payloadToValue / "
        "payloadToFiberHandle alone, from every base coordinate; every "
        "coordinate is looked up in every coordinate-list fiber; every size "
        "is compared with the word count of the layout.")
ASSUMPTIONS = [
    "an upper payload (segment end) is stored above C and B ranks only; the "
    "payload entries of an interior C or B fiber, when stored, are one "
    "occupancy and one fiber reference per element; an interior U fiber "
    "stores no references; a mask word has 32 bits",
    "segment ends restart at each parent fiber",
    "a coordinate or mask array of a rank is decoded with the rank's shape",
    "the maximum count and the upper bound of a slice are not part of the "
    "property; rank ids stay distinct when lower-cased and differ from 'root'",
]

ENC = {"U": False, "C": True, "B": True}


class Stub(dict):
    """A stand-in for the LRU cache the handle interface reports to"""
    miss_count = 0
    hit_count = 0

    def __repr__(self):
        return "<cache>"
    __str__ = __repr__


# ---------------------------------------------------------------- decoder

class Arrays:
    def __init__(self, out, ids, case):
        self.out, self.case = out, case
        self.pos = {k: 0 for k in out}
        self.ids = ids

    def take(self, kind, depth, n):
        k = f"{kind}_{self.ids[depth].lower()}"
        p = self.pos[k]
        got = self.out[k][p:p + n]
        require(len(got) == n, "{}: array {} ends after {} entries, {} more "
                "wanted: {}", self.case, k, len(self.out[k]), p + n, self.out)
        for x in got:
            require(not isinstance(x, Payload), "{}: boxed entry in {}: {}",
                    self.case, k, self.out)
        self.pos[k] = p + n
        return got


def decode(arr, desc, dims, depth, occ, pt, content):
    fmt, d, leaf = desc[depth], dims[depth], depth == len(desc) - 1
    if fmt == "U":
        where = list(range(d))
    elif fmt == "C":
        where = arr.take("coords", depth, occ)
        for a, b in zip(where, where[1:]):
            require(a < b, "{}: coordinates not increasing: {}", arr.case,
                    arr.out)
        for c in where:
            require(0 <= c < d, "{}: coordinate outside the shape: {}",
                    arr.case, arr.out)
    else:
        mask = arr.take("coords", depth, d)
        require(all(b in (0, 1) for b in mask), "{}: mask entries: {}",
                arr.case, arr.out)
        where = [c for c, b in enumerate(mask) if b]
        eq(len(where), occ, f"{arr.case}: bits set in a mask of {arr.out} (the"
           " segment says the second number)")
    if leaf:
        for c, v in zip(where, arr.take("payloads", depth, len(where))):
            content[pt + (c,)] = v
        return
    if ENC[desc[depth + 1]]:
        ends = arr.take("payloads", depth, len(where))
        prev = 0
        for c, e in zip(where, ends):
            require(e >= prev, "{}: segment ends decrease: {}", arr.case,
                    arr.out)
            decode(arr, desc, dims, depth + 1, e - prev, pt + (c,), content)
            prev = e
    else:
        for c in where:
            decode(arr, desc, dims, depth + 1, None, pt + (c,), content)


def ck_arrays(out, ids, desc, dims, want, default, case):
    arr = Arrays(out, ids, case)
    occ = None
    if ENC[desc[0]]:
        eq(len(out["payloads_root"]), 1, f"{case}: root entries of {out}")
        occ = out["payloads_root"][0]
        arr.pos["payloads_root"] = 1
    got = {}
    decode(arr, desc, dims, 0, occ, (), got)
    for k, a in out.items():
        require(arr.pos[k] == len(a), "{}: {} of {} entries of {} belong to "
                "no fiber: {}", case, len(a) - arr.pos[k], len(a), k, out)
    nz = {p: v for p, v in got.items() if v != default}
    eq(nz, want, f"{case}: content decoded from {out}")
    return got


# ---------------------------------------------------------------- handles

def scan_fiber(f, base, limit):
    """(coordinate, handle) list of a slice"""
    if base is None:
        f.setupSlice()
    else:
        f.setupSlice(base)
    got = []
    while len(got) <= limit:
        h = f.nextInSlice()
        if h is None:
            return got
        got.append((f.handleToCoord(h), h))
    return None


def ck_scan(ot, desc, dims, want, default, case):
    seen = [0] * len(desc)
    content = {}

    def walk(depth, idx, pt):
        fs = ot[depth + 1]
        require(isinstance(idx, int) and 0 <= idx < len(fs),
                "{}: fiber {} wanted, rank {} has {} encoded fibers (at {})",
                case, idx, depth, len(fs), pt)
        eq(idx, seen[depth], f"{case}: encoded fiber of rank {depth} reached "
           f"at {pt}, in order")
        seen[depth] += 1
        f = fs[idx]
        d = dims[depth]
        els = scan_fiber(f, None, d)
        require(els is not None, "{}: scan of fiber {} of rank {} does not "
                "end", case, idx, depth)
        cs = [c for c, _ in els]
        require(all(a < b for a, b in zip(cs, cs[1:])) and
                all(isinstance(c, int) and 0 <= c < d for c in cs),
                "{}: coordinates of the scan of fiber {} of rank {}: {}",
                case, idx, depth, cs)
        if desc[depth] == "U":
            eq(cs, list(range(d)), f"{case}: scan of an uncompressed fiber")
        for c, h in els:
            p = f.handleToPayload(h)
            require(p is not None, "{}: handle of {} in rank {} has no "
                    "payload", case, pt + (c,), depth)
            if depth == len(desc) - 1:
                v = f.payloadToValue(p)
                require(v is not None and not isinstance(v, Payload),
                        "{}: value at {} is {}", case, pt + (c,), v)
                content[pt + (c,)] = v
            else:
                walk(depth + 1, f.payloadToFiberHandle(p), pt + (c,))
        for b in range(d):
            got = scan_fiber(f, b, d)
            eq(got and [c for c, _ in got] if got is not None else got,
               [c for c in cs if c >= b],
               f"{case}: scan of fiber {idx} of rank {depth} from {b}")
            for (c, h) in got:
                if depth == len(desc) - 1:
                    eq(f.payloadToValue(f.handleToPayload(h)),
                       content[pt + (c,)], f"{case}: value at {pt + (c,)} in "
                       f"a scan from {b}")
        if desc[depth] == "C":
            for q in range(-1, d + 2):
                at = [i for i, c in enumerate(cs) if c >= q]
                eq(f.coordToHandle(q), at[0] if at else None,
                   f"{case}: lookup of {q} in {cs}")
        n = len(cs)
        if depth == len(desc) - 1:
            words = {"U": d, "C": 2 * n, "B": -(-d // 32) + n}
        elif ENC[desc[depth + 1]]:
            words = {"U": d, "C": 3 * n, "B": -(-d // 32) + 2 * n}
        else:
            words = {"U": 0, "C": n, "B": -(-d // 32)}
        eq(f.getSize(), words[desc[depth]],
           f"{case}: size of fiber {idx} of rank {depth}, {n} elements")

    walk(0, 0, ())
    eq(seen, [len(x) for x in ot[1:]], f"{case}: fibers reached by the scan")
    eq({p: v for p, v in content.items() if v != default}, want,
       f"{case}: content of the scan")
    return content


# ---------------------------------------------------------------- checks

def encode(codec, t, dims):
    ids = t.getRankIds()
    out = codec.get_output_dict(ids)
    ot = [[] for _ in range(len(ids) + 1)]
    codec.encode(-1, t.getRoot(), ids, out, ot,
                 shape=None if dims is None else list(dims))
    cache = Stub()
    for rank in ot:
        for f in rank:
            f.cache = cache
    return out, ot


def ck_codec(case, rec):
    spec, shape, default, fmts, declared, dimss, flags = case
    depth = len(shape)
    t = M.mk_tensor(spec, depth, shape if declared else None, default,
                    fmts=fmts, fiber_shape=declared)
    raw = M.raw_t(t)
    want = M.content(spec, depth, default)
    tshape = t.getShape()
    for desc in itertools.product("UCB", repeat=depth):
        codec = Codec(desc, [True] * depth)
        for dims in dimss:
            name = f"{''.join(desc)} of {spec} shape {shape}" + \
                (f" fmts {fmts}" if fmts else "") + \
                (f" default {default}" if default else "") + \
                ("" if declared else " (estimated)") + \
                (f" imposed {dims}" if dims else "")
            out, ot = encode(codec, t, dims)
            rec.step()
            use = dims or tshape
            ids = t.getRankIds()
            ck_arrays(out, ids, desc, use, want, default, name)
            rec.ok()
            ck_scan(ot, desc, use, want, default, name)
            rec.ok()
            eq(M.raw_t(t), raw, f"{name}: tensor after encoding")
            rec.outcome(tuple(len(x) for x in out.values()))
            for fl in flags:
                got = encode(Codec(desc, list(fl[:depth])), t, dims)[0]
                eq(got, out, f"{name}: arrays with cumulative flags {fl}")
                rec.ok()
    e = M.mirror_error(t)
    require(not e, "{}: tensor after encoding: {}", case, e)
    eq(t.getShape(), tshape, f"{case}: shape after encoding")
    rec.state((spec, shape, default, fmts))


def bigger(shape):
    return tuple(s + 1 + (i % 2) for i, s in enumerate(shape))


def gen_codec(full):
    v = M.linval
    fl = ((False,) * 3,)

    def case(s, shape, default=0, fmts=None, declared=True, dimss=None,
             flags=()):
        if dimss is None:
            dimss = (None, shape, bigger(shape))
        return s, shape, default, fmts, declared, dimss, flags

    for n in (1, 2, 3, 4, 5 if full else 4):
        for s in M.specs((n,), v((n,))):
            yield case(s, (n,), flags=fl)
    for sh in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if full else ()):
        for s in M.specs(sh, v(sh)):
            yield case(s, sh, flags=fl if sh == (2, 2) else ())
    for s in M.specs((2, 2, 2), v((2, 2, 2)), explicit=False):
        yield case(s, (2, 2, 2), dimss=None if full else
                   (None, (3, 2, 3)))
    if full:
        for s in M.specs((2, 2, 2), v((2, 2, 2))):
            yield case(s, (2, 2, 2), dimss=(None, (2, 3, 2)))


def gen_variants(full):
    v = M.linval
    for sh in ((3,), (2, 2)):
        for s in M.specs(sh, v(sh, base=3), default=7):
            yield s, sh, 7, None, True, (None, bigger(sh)), ()
        for s in M.specs(sh, v(sh)):
            for f in itertools.product("CU", repeat=len(sh)):
                if "U" in f:
                    yield s, sh, 0, f, True, (None, bigger(sh)), ()
    for sh in ((3,), (2, 3)) + (((2, 2, 2),) if full else ()):
        for s in M.specs(sh, v(sh), explicit=len(sh) < 3):
            if M.stored(s, len(sh)):
                yield s, sh, 0, None, False, (None, bigger(sh)), ()


def gen_wide(full):
    """longer fibers: many lookups, several mask words"""
    for n in (6, 7, 8, 9, 10, 11) if full else (6, 7, 8):
        for m in range(1 << n):
            s = tuple((c, c + 1) for c in range(n) if m >> c & 1)
            yield s, (n,), 0, None, True, (None,), ()
    for n in (31, 32, 33, 63, 64, 65, 96, 97, 128, 129):
        for st in (1, 2, 5, 31, 32, 33):
            for off in (0, 1, 30, 31, 32):
                if off < n:
                    s = tuple((c, c + 1) for c in range(off, n, st))
                    yield s, (n,), 0, None, True, (None, (n + 1,)), ()
        for k in range(1, 4):
            s = tuple((c, ((0, 4), (n - 1, 2))) for c in range(0, 2 * k, 2))
            yield s, (5, n), 0, None, True, (None, (6, n + 31)), ()


def families(tier):
    full = tier == "thorough"
    return [
        Family("codec", lambda: gen_codec(full), ck_codec,
               "all trees over <= 4 coordinates, 2x2, 3x2, 2x3, 2x2x2 (empty "
               "fibers; explicit zeros at depth 1-2) x all 3^depth "
               "descriptors x no, exact, larger imposed shape"),
        Family("variants", lambda: gen_variants(full), ck_codec,
               "default 7, U rank formats, estimated shapes"),
        Family("wide", lambda: gen_wide(full), ck_codec,
               "all subsets of 8 coordinates; fibers of 31-129 positions "
               "(mask words); interior ranks with long leaf fibers"),
    ]
