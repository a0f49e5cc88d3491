"""The explorer: enumerates every case of every space of a property, runs the
real code on each, and compares with the reference model.

A *space* is a finite, fully enumerated set of cases (plain JSON values, ordered
simplest first) with a function that executes one case against the code under
test.  Nothing is sampled: a space is explored completely, or the run stops at
the first violation and says so.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings

from mc import env

import numpy as np

CASE_CPU_S = 150         # of processor time
CASE_TIMEOUT_S = 450     # by the clock: for what waits for ever
MEM_LIMIT = 6 << 30


def floor_of(op):
    """Absolute tolerance for results that are frequencies or instants of scale one and can vanish."""
    return 1e-12 if op.startswith(("loc", "inst_freq", "group_delay")) else 1e-300


class Violation(Exception):
    """The property does not hold on the case being explored."""


class Space(object):
    def __init__(self, name, cases, fn, note="", isolated=False):
        self.name, self.fn, self.note = name, fn, note
        self.isolated = isolated      # every case in a process of its own, in which nothing has run yet
        # distinct cases, in the order given (simplest first)
        self.cases = list({canon(c): c for c in cases}.values())


class Ctx(object):
    """What a case function uses to act on the implementation and to judge."""

    def __init__(self):
        self.transitions = 0     # calls executed on the real code
        self.compared = 0        # model-against-implementation comparisons
        self.outcomes = set()    # digests of what was observed
        self.skipped = 0         # cases on which the property promises nothing

    # -- acting -----------------------------------------------------------
    def call(self, f, *a, **k):
        """One transition: call the real code.  Any exception is a violation:
        spaces contain only inputs on which the property promises an answer."""
        self.transitions += 1
        try:
            return f(*a, **k)
        except (Violation, KeyboardInterrupt, TimeoutError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("%s raised %s: %s (%s:%d)" % (
                getattr(f, "__qualname__", f), type(e).__name__, str(e)[:200],
                os.path.basename(tb.filename), tb.lineno))

    def rejects(self, f, excs, what):
        """The call must raise one of `excs`."""
        self.transitions += 1
        self.compared += 1
        try:
            r = f()
        except excs as e:
            self.outcomes.add(type(e).__name__)
            return
        except (KeyboardInterrupt, TimeoutError):
            raise
        except BaseException as e:
            raise Violation("%s: expected %s, raised %s: %s" % (
                what, "/".join(x.__name__ for x in excs), type(e).__name__, str(e)[:160]))
        raise Violation("%s: accepted, returned %s" % (what, brief(r)))

    def skip(self):
        self.skipped = 1

    # -- judging ----------------------------------------------------------
    def see(self, *arrays):
        for a in arrays:
            self.outcomes.add(digest(a))

    def true(self, cond, what, *fmt):
        self.compared += 1
        if not cond:
            raise Violation(what % fmt if fmt else what)

    def shape(self, got, want, what):
        self.compared += 1
        s = getattr(got, "shape", None)
        if s != tuple(want):
            raise Violation("%s: shape %s, expected %s" % (what, s, tuple(want)))

    def close(self, got, want, what, rtol=1e-9, atol=0.0, scale=None):
        """Agreement of the implementation with the model, entry by entry, up to
        floating point: `rtol` relative to the largest entry of the model."""
        self.compared += 1
        want = np.asarray(want)
        try:
            g = np.asarray(got)
        except Exception:
            raise Violation("%s: %s is not an array" % (what, brief(got)))
        if g.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, want.shape))
        if g.dtype.kind not in "biufc":
            raise Violation("%s: dtype %s" % (what, g.dtype))
        if g.size == 0:
            return
        if scale is None:
            scale = np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
        tol = rtol * scale + atol
        gb, wb = np.isfinite(g), np.isfinite(want)
        if not np.array_equal(gb, wb):
            ix = tuple(int(i) for i in np.argwhere(gb != wb)[0])
            raise Violation("%s: at %s got %r, expected %r" % (what, ix, g[ix].item(), want[ix].item()))
        d = np.abs(np.where(gb, g, 0) - np.where(wb, want, 0))
        if not (d <= tol).all():
            ix = tuple(int(i) for i in np.unravel_index(np.argmax(d), d.shape))
            raise Violation("%s: at %s got %r, expected %r (difference %.3g, tolerance %.3g)" % (
                what, ix, g[ix].item(), want[ix].item(), float(d[ix]), float(tol)))
        nf = ~gb
        if nf.any() and not np.array_equal(np.nan_to_num(g[nf]), np.nan_to_num(want[nf].astype(g.dtype))):
            raise Violation("%s: different non-finite values" % what)
        self.outcomes.add(digest(np.round(g / (scale or 1.0), 6)))

    def same(self, got, want, what):
        """Bit-for-bit the same array."""
        self.compared += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if not np.array_equal(g, w, equal_nan=g.dtype.kind in "fc" and w.dtype.kind in "fc"):
            raise Violation("%s: values differ: %s instead of %s" % (what, brief(g), brief(w)))


def brief(x):
    try:
        s = repr(x)
    except Exception as e:
        s = "<%s>" % e
    return s if len(s) < 160 else s[:157] + "..."


def digest(x):
    h = hashlib.blake2b(digest_size=8)
    a = np.ascontiguousarray(x)
    h.update(str((a.dtype.kind, a.shape)).encode())
    h.update((a + 0).tobytes() if a.dtype.kind in "fciub" else repr(x).encode())
    return h.hexdigest()


# ---------------------------------------------------------------------------
_SPACES = None


def _alarm(*_):
    raise TimeoutError("no answer within %d s (%d s of processor time)" % (CASE_TIMEOUT_S, CASE_CPU_S))


SILENT = r"[\s\S]*"     # ignores every warning, yet differs from any filter the code under test would set


def run_case(space, case):
    """Execute one case; returns (ctx, None | message)."""
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.filterwarnings("ignore", message=SILENT)
            space.fn(ctx, **case)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except TimeoutError as e:
        return ctx, str(e)
    except MemoryError as e:
        return ctx, "memory exhausted: %s" % e
    except Exception as e:
        # what came back could not even be judged (not an array, not a triple, ...)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return ctx, "unusable result: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200],
                                                         os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


def _depart(f, *a):
    """Start f(*a) in a forked process; what it answers is read with `_arrive`."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, f(*a))
            except BaseException as e:
                out = (False, "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def _arrive(pid, r):
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "the interpreter died")


def apart(f, *a):
    """f(*a) in a forked process of its own."""
    return _arrive(*_depart(f, *a))


def apart_each(f, keys, jobs):
    """{key: apart(f, *key)}, shared among `jobs` processes."""
    going = [_depart(lambda q=q: {k: apart(f, *k) for k in keys[q::jobs]}) for q in range(jobs)]
    out = {}
    for g in going:
        ok, r = _arrive(*g)
        if not ok:
            raise RuntimeError(r)
        out.update(r)
    return {k: out[k] for k in keys}


def _isolated(space, case):
    ctx = Ctx()
    ok, r = apart(lambda: (lambda c, m: (c.__dict__, m))(*run_case(space, case)))
    if not ok:
        return ctx, r
    ctx.__dict__.update(r[0])
    return ctx, r[1]


def _work(si, lo, hi):
    space = _SPACES[si]
    tr = cmpd = skipped = 0
    out, bad = set(), []
    for i in range(lo, hi):
        try:
            ctx, msg = (_isolated if space.isolated else run_case)(space, space.cases[i])
        except BaseException:
            return tr, cmpd, skipped, out, bad, "space %s case %s\n%s" % (
                space.name, space.cases[i], traceback.format_exc())
        tr += ctx.transitions
        cmpd += ctx.compared
        skipped += ctx.skipped
        out |= ctx.outcomes
        if msg is not None:
            bad.append((i, msg))
    return tr, cmpd, skipped, out, bad, None


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))


def known_findings(prop):
    """`known: property=<id> space=<space> case=<json>` lines of the findings file."""
    out = {}
    p = os.path.join(env.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                head, what = line.strip().split(" :: ", 1)
                space = head.split("space=", 1)[1].split(" ", 1)[0]
                case = json.loads(head.split("case=", 1)[1])
                out[(space, canon(case))] = what
    return out


def canon(case):
    return json.dumps(case, sort_keys=True)


def explore(prop, spaces, tier, jobs=None):
    global _SPACES
    t0 = time.time()
    _SPACES = spaces
    known = known_findings(prop)
    jobs = jobs or int(os.environ.get("TFTB_MC_JOBS", 0)) or min(8, os.cpu_count() or 1)
    work = []
    for si, sp in enumerate(spaces):
        n = len(sp.cases)
        step = max(1, min(64, n // (4 * jobs)))
        work += [(si, lo, min(n, lo + step)) for lo in range(0, n, step)]
    stats = {sp.name: dict(cases=0, transitions=0, compared=0, outside_domain=0) for sp in spaces}
    outcomes, violation, hit, error = set(), None, [], None
    ex = cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init)
    try:
        futs = [ex.submit(_work, *w) for w in work]
        for w, f in zip(work, futs):
            si, lo, hi = w
            sp = spaces[si]
            try:
                tr, cm, skp, out, bad, err = f.result()
            except cf.process.BrokenProcessPool:
                violation = (sp, sp.cases[lo], "the interpreter died while exploring this part")
                break
            if err:
                error = err
                break
            st = stats[sp.name]
            st["cases"] += hi - lo
            st["transitions"] += tr
            st["compared"] += cm
            st["outside_domain"] += skp
            outcomes |= out
            for i, msg in bad:
                key = (sp.name, canon(sp.cases[i]))
                if key in known:
                    hit.append((key, known[key], msg))
                elif violation is None:
                    violation = (sp, sp.cases[i], msg)
            if violation:
                break
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
        for p in procs:
            p.join(10)
    if error:
        raise RuntimeError(error)
    return dict(stats=stats, outcomes=len(outcomes), violation=violation, known=hit,
                wall=time.time() - t0)


def report(prop, mod, spaces, res, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(env.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    v = res["violation"]
    samples = []
    for sp in spaces:
        if sp.cases:
            samples.append({"space": sp.name, "first": sp.cases[0], "last": sp.cases[-1]})
    cov = dict(
        states=sum(s["cases"] - s["outside_domain"] for s in res["stats"].values()),
        transitions=sum(s["transitions"] for s in res["stats"].values()),
        traces_validated_against_impl=sum(s["compared"] for s in res["stats"].values()),
        distinct_observations=res["outcomes"],
        exhaustive=v is None,
        spaces={sp.name: dict(res["stats"][sp.name], total=len(sp.cases), what=sp.note) for sp in spaces},
        samples=samples[:12],
        meaning="states: cases of the bounded spaces explored; transitions: calls executed on the "
                "real code; traces_validated_against_impl: comparisons of what the real code did with "
                "the reference model; distinct_observations: different results seen",
    )
    cov.update(getattr(mod, "EXTRA_COVERAGE", {}))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                           "the reference model states the property correctly",
                           "values outside the enumerated alphabets are not covered"],
                       wall_s=round(res["wall"], 3), violations=0 if v is None else 1), f, indent=1)
        f.write("\n")
    for key, what, msg in res["known"]:
        print("KNOWN-FINDING: property=%s space=%s case=%s %s" % (prop, key[0], key[1], what))
    print("%s [%s]: %d cases, %d calls, %d comparisons, %d distinct observations, %.1f s" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["distinct_observations"], res["wall"]))
    if v is None:
        return 0
    sp, case, msg = v
    path = os.path.join(ev, "replay-%s.json" % prop)
    with open(path, "w") as f:
        json.dump(dict(property=prop, space=sp.name, case=case, message=msg, tier=tier), f, indent=1)
        f.write("\n")
    print("space %s, case %s: %s" % (sp.name, canon(case), msg))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def import_failure(prop, tier, exc):
    """The code under test cannot be imported: no promise can be kept."""
    ev = os.path.join(env.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, "replay-%s.json" % prop)
    with open(path, "w") as f:
        json.dump(dict(property=prop, space="import", case={}, message=str(exc)), f)
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                       level="model_checking",
                       coverage=dict(states=1, transitions=1, traces_validated_against_impl=0, samples=["import tftb"]),
                       wall_s=0.0, violations=1), f)
    traceback.print_exc()
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
