"""Exhaustive-exploration engine shared by every check.

A property module exposes ``families(tier)`` -> list of Family.  A family is a
*finite, fully enumerated* set of cases (``gen``) and a function that executes
one case on the real code in /repo and compares it with a reference model
(``check``).  A case is a plain Python literal so that it can be replayed.

The set of cases is partitioned over worker processes by a fixed hash of the
case index; nothing is sampled and no time cap is applied.  A case that does not
end within a (CPU time) limit, or that exhausts memory, is itself a violation.
"""

import ast
import itertools
import json
import logging
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside the enumerated domain (not counted)."""


class Family:

    def __init__(self, name, gen, check, bound, limit=60):
        self.name = name
        self.gen = gen
        self.check = check
        self.bound = bound
        self.limit = limit


class Rec:
    """What one worker has explored so far in one family"""

    def __init__(self):
        self.cases = 0
        self.steps = 0
        self.validated = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []

    def state(self, obj):
        """A distinct explored state (canonical, hashable); True when new"""
        h = hash(obj)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """n operations of the code under test executed (transitions)"""
        self.steps += n

    def ok(self, n=1):
        """n executions of the code compared with the reference model"""
        self.validated += n

    def outcome(self, obj):
        self.outcomes.add(hash(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(repr(obj)[:400])


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(fam, case, rec):
    """Returns None or (message, signature)"""
    signal.setitimer(signal.ITIMER_PROF, fam.limit)
    try:
        fam.check(case, rec)
        return None
    except Skip:
        rec.cases -= 1
        return None
    except Violation as e:
        return (str(e), e.sig)
    except CaseTimeout:
        return (f"no termination within {fam.limit}s of CPU time", None)
    except (KeyboardInterrupt, SystemExit) as e:
        return (f"the code under test ended with {type(e).__name__}: {e}", None)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}"
                            for f in reversed(tb[-6:]))
        return (f"unexpected {type(e).__name__}: {str(e)[:300]} at {where}",
                None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _silence():
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(null, 2)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def mine(i, w, n, seed):
    return ((i * 2654435761 + seed * 40503) >> 8) % n == w


def gen_error(e):
    """Message when the code under test failed while a case was being built,
    None when it is not involved (an error of the machinery)"""
    tb = traceback.extract_tb(e.__traceback__)
    mod = os.path.join(os.path.abspath(REPO), "fibertree")
    if not any(os.path.abspath(f.filename).startswith(mod) for f in tb):
        return None
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}"
                        for f in reversed(tb[-6:]))
    return (f"unexpected {type(e).__name__} while building the cases: "
            f"{str(e)[:300]} at {where}")


def cases_of(fam):
    """The cases, and as the last one a GenFailed when gen itself failed"""
    try:
        yield from fam.gen()
    except Exception as e:
        msg = gen_error(e)
        if msg is None:
            raise
        yield GenFailed(msg)


class GenFailed:

    def __init__(self, msg):
        self.msg = msg

    def __repr__(self):
        return repr("<generator>")


def _worker(w, n, seed, fams, found, conn, go_on, maxv, cur):
    _silence()
    signal.signal(signal.SIGPROF, _alarm)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(3000)
    wd = os.path.join(os.environ["MC_SCRATCH"], f"w{w}")
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    out = []
    for fi, fam in enumerate(fams):
        rec = Rec()
        bad = []
        fresh = 0
        t0 = time.time()
        cur[2 * w] = fi
        for i, case in enumerate(cases_of(fam)):
            if isinstance(case, GenFailed):
                bad.append((i, repr(case), case.msg, None))
                found.value = 1
                break
            if not mine(i, w, n, seed):
                continue
            if found.value and not go_on:
                break
            rec.cases += 1
            cur[2 * w + 1] = i
            r = run_case(fam, case, rec)
            cur[2 * w + 1] = -1
            if r is None:
                rec.sample(case)
            else:
                known = is_known(fam.name, repr(case), r[1])
                if not known or len(bad) < 100:
                    bad.append((i, repr(case), r[0], r[1]))
                if not known:
                    found.value = 1
                    fresh += 1
                    if not go_on or fresh >= 200:
                        break
        out.append((fi, rec, bad, time.time() - t0))
    conn.send([(fi, r.cases, r.steps, r.validated, r.states, r.outcomes,
                r.samples, bad, dt) for fi, r, bad, dt in out])
    conn.close()


# ---------------------------------------------------------------- known findings

_KNOWN = None
_PROP = None


def load_known(prop):
    global _KNOWN, _PROP
    _PROP = prop
    path = os.path.join(VERIF, "known_findings.json")
    _KNOWN = []
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop:
                    _KNOWN.append(e)
    return _KNOWN


def is_known(fam, case, sig):
    for e in _KNOWN or ():
        if e["family"] != fam:
            continue
        if sig is not None and e.get("sig") == sig:
            return e
        if case in e.get("cases", ()):
            return e
    return None


# ---------------------------------------------------------------- driver

def explore(prop, mod, tier, seed):
    import fibertree
    assert os.path.dirname(os.path.abspath(fibertree.__file__)) \
        == os.path.join(os.path.abspath(REPO), "fibertree"), fibertree.__file__

    t0 = time.time()
    load_known(prop)
    fams = mod.families(tier)
    only = os.environ.get("MC_ONLY")
    if only:
        fams = [f for f in fams if f.name in only.split(",")]
    n = int(os.environ.get("MC_WORKERS", "0")) or os.cpu_count() or 8
    go_on = bool(os.environ.get("MC_ALL"))
    maxv = int(os.environ.get("MC_ALL") or 1) if go_on else 40

    found = mp.Value("i", 0)
    procs = []
    ctx = mp.get_context("fork")
    cur = mp.RawArray("l", [-1] * (2 * n))
    for w in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker,
                        args=(w, n, seed, fams, found, b, go_on, maxv, cur))
        p.start()
        b.close()
        procs.append((p, a))

    agg = [dict(cases=0, steps=0, val=0, states=set(), outcomes=set(),
                samples=[], bad=[], t=0.0) for _ in fams]
    died = 0
    for w, (p, a) in enumerate(procs):
        try:
            res = a.recv()
        except EOFError:
            p.join()
            fi, i = cur[2 * w], cur[2 * w + 1]
            # ended by the system for want of memory, or a machinery error
            if p.exitcode in (-signal.SIGKILL, 1) or fi < 0 or i < 0:
                died += 1
                continue
            case = next(itertools.islice(fams[fi].gen(), i, None))
            agg[fi]["bad"].append(
                (i, repr(case), "the interpreter ended while executing the "
                 f"case (exit code {p.exitcode})", None))
            found.value = 1
            continue
        for fi, c, s, v, st, oc, sm, bad, dt in res:
            g = agg[fi]
            g["cases"] += c
            g["steps"] += s
            g["val"] += v
            g["states"] |= st
            g["outcomes"] |= oc
            g["samples"] += sm
            g["bad"] += bad
            g["t"] = max(g["t"], dt)
        p.join()

    if died:
        print(f"ERROR: {died} worker(s) died", flush=True)
        return 3

    viols = []
    known = {}
    for fam, g in zip(fams, agg):
        for i, case, msg, sig in sorted(g["bad"], key=lambda x: x[0]):
            e = is_known(fam.name, case, sig)
            if e is not None:
                known.setdefault(e["id"], (e, 0))
                known[e["id"]] = (e, known[e["id"]][1] + 1)
            else:
                viols.append((fam.name, case, msg))

    tot_states = sum(len(g["states"]) for g in agg)
    wall = time.time() - t0
    cov = {
        "states": tot_states,
        "transitions": sum(g["steps"] for g in agg),
        "traces_validated_against_impl": sum(g["val"] for g in agg),
        "evaluations": sum(g["cases"] for g in agg),
        "distinct_outcomes": sum(len(g["outcomes"]) for g in agg),
        "exhaustive": not viols,
        "families": [
            {"name": f.name, "bound": f.bound, "cases": g["cases"],
             "states": len(g["states"]), "transitions": g["steps"],
             "outcomes": len(g["outcomes"]), "seconds": round(g["t"], 2)}
            for f, g in zip(fams, agg)],
        "samples": [{"family": f.name, "case": s}
                    for f, g in zip(fams, agg) for s in g["samples"][:1]][:12],
        "rule": getattr(mod, "RULE", ""),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": [{"family": f, "case": c[:2000], "message": m[:2000]}
                       for f, c, m in viols[:20]],
        "known_findings": [{"id": k, "observed": v[1]} for k, v in known.items()],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for fam, g in zip(fams, agg):
        print(f"{prop} {fam.name}: cases={g['cases']} states={len(g['states'])} "
              f"transitions={g['steps']} outcomes={len(g['outcomes'])} "
              f"t={g['t']:.1f}s  [{fam.bound}]")
    print(f"{prop} tier={tier} states={cov['states']} "
          f"transitions={cov['transitions']} "
          f"validated={cov['traces_validated_against_impl']} wall={wall:.1f}s")

    for e in {e["id"]: e for e in _KNOWN}.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")

    if not viols:
        return 0

    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    # at most three artefacts per family, simplest (earliest) first
    per = {}
    for fam, case, msg in viols:
        per.setdefault(fam, []).append((case, msg))
    import re
    for fam, lst in per.items():
        kinds = {}
        for case, msg in lst:
            m = re.sub(r"\s+", " ", re.sub(r"\d+|[][(),.:'>-]", "", msg))
            kinds.setdefault((m[:24], m[-40:]), []).append((case, msg))
        lst = [v[0] for v in kinds.values()]
        if go_on:
            print(f"== {fam}: {sum(map(len, kinds.values()))} violations, "
                  f"{len(kinds)} kinds")
        for k, (case, msg) in enumerate(lst[:(maxv if go_on else 3)]):
            path = os.path.join(d, f"{prop}-{fam}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "family": fam, "case": case,
                           "tier": tier, "message": msg,
                           "replay": f"./check {prop} --replay {path}"},
                          f, indent=1)
            print(f"  {fam} {case[:300]}: {msg[:700]}")
            if not go_on:
                print(f"VIOLATION property={prop} replay={path}")
    return 1


def replay(prop, mod, path):
    with open(path) as f:
        art = json.load(f)
    load_known(prop)
    os.chdir(os.environ["MC_SCRATCH"])
    signal.signal(signal.SIGPROF, _alarm)
    for tier in (art.get("tier", "quick"), "thorough", "quick"):
        for fam in mod.families(tier):
            if fam.name == art["family"]:
                case = ast.literal_eval(art["case"])
                if case == "<generator>":
                    r = [(c.msg, None) for c in cases_of(fam)
                         if isinstance(c, GenFailed)]
                    r = r[0] if r else None
                else:
                    r = run_case(fam, case, Rec())
                if r is None:
                    print("the case holds")
                    return 0
                print(r[0])
                print(f"VIOLATION property={prop} replay={path}")
                return 1
    print("no such family")
    return 3
