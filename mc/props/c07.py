"""C07: operations are functions of their arguments: no argument is modified, nothing is remembered between
calls, no random numbers are consumed and no global setting is changed."""
import os
import pickle
import random
import warnings

import numpy as np
import matplotlib

from mc import catalog, catalog2
from mc.core import SILENT, Space, apart, apart_each, brief, floor_of, Violation

TOL = 1e-10
REFS = {}


def fresh(key):
    """What the operation returns in a process in which nothing has been called before."""
    with np.errstate(all="ignore"):
        return catalog.invoke(key)[0]


def references(keys):
    for k in keys:
        if k not in REFS:
            REFS[k] = apart(fresh, k)
    return REFS


def agree(ctx, got, key, what):
    ok, ref = REFS[key]
    if not ok:
        raise Violation("%s variant %d on its own: %s" % (key[0], key[1], ref))
    ctx.true(len(got) == len(ref), "%s: %d outputs instead of %d", what, len(got), len(ref))
    for i, (a, b) in enumerate(zip(got, ref)):
        ctx.close(a, b, "%s, output %d" % (what, i), rtol=TOL, atol=floor_of(key[0]))


def settings():
    return (np.geterr(), np.get_printoptions(), list(warnings.filters), dict(matplotlib.rcParams),
            matplotlib.get_backend(), dict(os.environ), os.getcwd(), random.getstate())


def arrays(a, k):
    return [v for v in list(a) + list(k.values()) if isinstance(v, np.ndarray)]


def alone(ctx, name, i):
    key = (name, i)
    o = catalog.BY[name]
    a, k = o.build(i)
    before = pickle.dumps((a, k))
    state = pickle.dumps(np.random.get_state())
    env = settings()
    if o.rng:
        np.random.seed(3)
    raw = ctx.call(o.fn, *a, **k)
    out = catalog.flat(raw)
    agree(ctx, out, key, "first call")
    ctx.true(pickle.dumps((a, k)) == before, "%s modified its arguments", name)
    if not o.rng:
        ctx.true(pickle.dumps(np.random.get_state()) == state, "%s consumed random numbers", name)
    ctx.true(settings() == env, "%s changed a global setting", name)
    # scribbling on what came back must not reach the next call
    kept = arrays(a, k)
    for r in (raw if isinstance(raw, tuple) else (raw,)):
        if isinstance(r, np.ndarray) and r.flags.writeable and not any(np.shares_memory(r, q) for q in kept):
            r[...] = 77
    for again in range(2):
        if o.rng:
            np.random.seed(3)
        agree(ctx, catalog.flat(ctx.call(o.fn, *a, **k)), key, "call %d on the same arguments" % (again + 2))
    # the same arrays with other contents are another input
    changed = [(v, v.copy()) for v in kept if v.dtype.kind in "fc"]
    for v, old in changed:
        v *= 0.5
    if changed:
        try:
            o.fn(*a, **k)
        except Exception:
            pass
        for v, old in changed:
            v[...] = old
        if o.rng:
            np.random.seed(3)
        agree(ctx, catalog.flat(ctx.call(o.fn, *a, **k)), key, "call after the arrays changed and changed back")


def inplace(ctx, name, i, j):
    """Arguments of the second call stored in the very arrays of the first."""
    o = catalog.BY[name]
    a, k = o.build(i)
    b, q = o.build(j)
    if len(a) != len(b) or sorted(k) != sorted(q):
        return ctx.skip()
    first, second = list(a) + [k[x] for x in sorted(k)], list(b) + [q[x] for x in sorted(k)]
    for x, y in zip(first, second):
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray) or isinstance(x, np.ndarray) and (
                x.shape != y.shape or x.dtype != y.dtype):
            return ctx.skip()
    if not any(isinstance(x, np.ndarray) for x in first):
        return ctx.skip()
    for n in range(2):
        if o.rng:
            np.random.seed(3)
        agree(ctx, catalog.flat(ctx.call(o.fn, *a, **k)), (name, i), "first contents")
        save = []
        for x, y in zip(first, second):
            if isinstance(x, np.ndarray):
                save.append((x, x.copy()))
                x[...] = y
        args = [x if isinstance(x, np.ndarray) else y for x, y in zip(first, second)]
        if o.rng:
            np.random.seed(3)
        agree(ctx, catalog.flat(ctx.call(o.fn, *args[:len(a)], **dict(zip(sorted(k), args[len(a):])))), (name, j),
              "second contents of the same arrays")
        for x, old in save:
            x[...] = old


def after(ctx, name, i):
    """This operation, then any other: the other answers as if it were the first."""
    for key in catalog.KEYS:
        ctx.transitions += 1
        catalog.invoke((name, i))
        try:
            got = catalog.invoke(key)[0]
        except Exception as e:
            raise Violation("%s variant %d after %s variant %d: %s: %s" % (key + (name, i, type(e).__name__, e)))
        ctx.transitions += 1
        agree(ctx, got, key, "%s variant %d after %s variant %d" % (key + (name, i)))


def triple(ctx, name, i, j, m):
    """Three calls of one operation."""
    for n, q in enumerate((i, j, m)):
        ctx.transitions += 1
        agree(ctx, catalog.invoke((name, q))[0], (name, q), "call %d of %s %s" % (n + 1, name, (i, j, m)))


def failing(ctx, name, i):
    """A call that is refused leaves no trace."""
    o = catalog.BY[name]
    for bad in ("nothing", "text", "negative", "empty"):
        a, k = o.build(i)
        if not a:
            continue
        a = list(a)
        for pos in range(len(a)):
            b = list(a)
            b[pos] = {"nothing": None, "text": "x", "negative": -1, "empty": np.zeros(0)}[bad]
            ctx.transitions += 1
            with np.errstate(all="warn"):
                env = settings()
                try:
                    o.fn(*b, **k)
                except Exception:
                    pass
                ctx.true(settings() == env, "%s refused a call and left a global setting changed", name)
    agree(ctx, catalog.invoke((name, i))[0], (name, i), "call after refused calls")


def answer(o, a, k, mode="ignore"):
    """Outputs, or the fact that the call was refused."""
    if o.rng:
        np.random.seed(3)
    with warnings.catch_warnings(), np.errstate(all=mode):
        warnings.filterwarnings("ignore", message=SILENT)
        before = np.geterr(), list(warnings.filters)
        try:
            r = o.fn(*a, **k)
        except Exception:
            r = None
        kept = (np.geterr(), list(warnings.filters)) == before
    return r, kept


def broad(ctx, name, i):
    """In a process in which nothing has been called: this argument set, then others, then this one again."""
    o = catalog2.BYX[name]
    a, k = o.build(i)
    before = pickle.dumps((a, k))
    env = settings()
    state = pickle.dumps(np.random.get_state())
    raw, kept = answer(o, a, k)
    ctx.transitions += 1
    ctx.true(kept, "%s changed the handling of floating point errors or of warnings", name)
    ctx.true(pickle.dumps((a, k)) == before, "%s modified its arguments", name)
    ctx.true(o.rng or pickle.dumps(np.random.get_state()) == state, "%s consumed random numbers", name)
    ctx.true(settings() == env, "%s changed a global setting", name)
    ref = None if raw is None else [v.copy() for v in catalog.flat(raw)]
    ctx.outcomes.add("refused" if ref is None else "answered")

    def again(what, mode="ignore", args=None):
        b, q = args or o.build(i)
        r, kept = answer(o, b, q, mode)
        ctx.transitions += 1
        ctx.true(kept, "%s changed the handling of floating point errors or of warnings", name)
        ctx.true((r is None) == (ref is None), "%s: %s", what, "refused" if r is None else "accepted")
        if ref is None:
            return
        got = catalog.flat(r)
        ctx.true(len(got) == len(ref), "%s: %d outputs", what, len(got))
        for j, (x, y) in enumerate(zip(got, ref)):
            ctx.close(x, y, "%s, output %d" % (what, j), rtol=TOL, atol=floor_of(name))

    if raw is not None:
        mine = arrays(a, k)
        for r in (raw if isinstance(raw, tuple) else (raw,)):
            if isinstance(r, np.ndarray) and r.flags.writeable and not any(np.shares_memory(r, q) for q in mine):
                r[...] = 77
    again("same arguments after the results were overwritten", "warn", (a, k))
    for j in (i + 1, i - 1):            # neighbours: mostly one thing differs
        b, q = o.build(j % len(o.variants))
        was = pickle.dumps((b, q))
        answer(o, b, q)
        ctx.transitions += 1
        ctx.true(pickle.dumps((b, q)) == was, "%s modified its arguments on a second call", name)
    again("equal arguments after other calls")
    ctx.true(pickle.dumps((a, k)) == before, "%s modified its arguments later", name)
    for v in arrays(a, k):
        if v.dtype.kind in "fc" and v.flags.writeable:
            v *= 0.5
    answer(o, a, k)
    again("equal arguments after a call with others in the same arrays")


def lone(name, i):
    """Outputs of one argument set in a process in which nothing else has been called; None if refused."""
    o = catalog2.BYX[name]
    r = answer(o, *o.build(i))[0]
    return None if r is None else [np.array(v) for v in catalog.flat(r)]


def follow(ctx, keys, refs, what):
    for n, (name, i) in enumerate(keys):
        o = catalog2.BYX[name]
        r = answer(o, *o.build(i))[0]
        ctx.transitions += 1
        ok, ref = refs[name, i]
        if not ok:
            raise Violation("%s variant %d on its own: %s" % (name, i, ref))
        before = " (after %s variant %d)" % keys[n - 1] if n else ""
        ctx.true((r is None) == (ref is None), "call %d of %s, %s variant %d%s: %s", n + 1, what, name, i, before, "refused" if r is None else "accepted")
        if ref is None:
            continue
        got = catalog.flat(r)
        ctx.true(len(got) == len(ref), "call %d of %s, %s variant %d%s: %d outputs", n + 1, what, name, i, before, len(got))
        for j, (x, y) in enumerate(zip(got, ref)):
            ctx.close(x, y, "call %d of %s, %s variant %d%s, output %d" % (n + 1, what, name, i, before, j), rtol=TOL, atol=floor_of(name))


def twins(v):
    """Arguments that agree with this one in most respects."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return []
    if isinstance(v, (int, np.integer)):
        return [v + 1, v - 1, v + 2]
    if isinstance(v, (float, np.floating)):
        return [v + 0.012, v - 0.003, v * (1 + 1e-4), v * (1 + 1e-6), -v]
    if isinstance(v, (tuple, list)):
        return [type(v)(list(v[:q]) + [w] + list(v[q + 1:])) for q in range(len(v)) for w in twins(v[q])[:4]]
    if not isinstance(v, np.ndarray) or v.size == 0:
        return []
    out, n = [], v.size

    def put(change):
        w = v.copy()
        change(w.reshape(-1))
        if not np.array_equal(w, v):
            out.append(w)

    def swap(w, p, q):
        w[[p, q]] = w[[q, p]]
    step = 1 if v.dtype.kind in "iu" else 0.01 * np.max(np.abs(v), initial=0.1)
    for q in sorted({0, n // 2, n - 1}):
        put(lambda w: w.__setitem__(q, w[q] + step))
    if n > 1:
        put(lambda w: swap(w, 0, n - 1))
        put(lambda w: swap(w, n // 2, n - 1))
    if n > 3:
        put(lambda w: swap(w, 1, n - 2))
        put(lambda w: swap(w, n // 2 - 1, n // 2))
    put(lambda w: w.__setitem__(slice(None), w[::-1].copy()))
    put(lambda w: w.__imul__(-1))
    if v.dtype.kind in "fc":
        put(lambda w: w.__imul__(1 + 1e-6))
        put(lambda w: w.__iadd__(1e-6 * step))
    if v.dtype.kind == "c":
        put(lambda w: w.__setitem__(slice(None), w.conj()))
        put(lambda w: w.__imul__(1j))
        put(lambda w: w.__setitem__(slice(None), w.real))
        put(lambda w: w.__iadd__(1j * step))
    return out


def twin(ctx, name, i):
    """Two argument sets that differ in one detail, one after the other, either way round."""
    o = catalog.BY[name]

    def outputs(a, k):
        r = answer(o, a, k)[0]
        return None if r is None else [np.array(v) for v in catalog.flat(r)]
    a, k = o.build(i)
    others = [(q, w) for q in list(range(len(a))) + sorted(k) for w in twins(k[q] if q in k else a[q])]
    if not others:
        return ctx.skip()

    def args(q, w):
        b, d = o.build(i)
        if q in d:
            d[q] = w.copy() if isinstance(w, np.ndarray) else w
        elif q is not None:
            b[q] = w.copy() if isinstance(w, np.ndarray) else w
        return b, d
    own = apart(lambda: outputs(*args(None, None)))

    def check(got, ref, what):
        ok, ref = ref
        if not ok:
            raise Violation("%s: %s" % (what, ref))
        ctx.transitions += 1
        ctx.true((got is None) == (ref is None), "%s: %s", what, "refused" if got is None else "accepted")
        if ref is not None:
            ctx.true(len(got) == len(ref), "%s: %d outputs", what, len(got))
            for j, (x, y) in enumerate(zip(got, ref)):
                ctx.close(x, y, "%s, output %d" % (what, j), rtol=TOL, atol=floor_of(name))
    alone = [apart(lambda: outputs(*args(q, w))) for q, w in others]
    for order in (0, 1):                # the other after this one; this one after the other (in a process of its own)
        for (q, w), ref in zip(others, alone):
            if order == 0:
                check(outputs(*args(None, None)), own, "%s variant %d" % (name, i))
                check(outputs(*args(q, w)), ref, "%s variant %d with another argument %r (%s), after the original" % (name, i, q, brief(w)))
            else:
                ok, r = apart(lambda: (outputs(*args(q, w)), outputs(*args(None, None))))
                if not ok:
                    raise Violation(r)
                check(r[0], ref, "%s variant %d with another argument %r" % (name, i, q))
                check(r[1], own, "%s variant %d after a call with another argument %r (%s)" % (name, i, q, brief(w)))


def sweep(ctx, name, order, block=None):
    """One long history: all argument sets of one operation (or of all), one after the other."""
    keys = [k for k in LONE if name in (k[0], None)]
    if name is None:                    # every operation in turn, not all of one and then all of the next
        keys.sort(key=lambda k: k[1])
    if order == "walk":                 # every argument set directly after every other, a block of distances at a time
        n, steps = len(keys), []
        for s in range(max(1, block[0]), min(n, block[1])):
            seen = set()
            for start in range(n):
                at = start
                while at not in seen:
                    seen.add(at)
                    steps.append(at)
                    at = (at + s) % n
                steps.append(at)
        keys = [keys[q] for q in steps]
    elif order == "reverse":
        keys.reverse()
    follow(ctx, keys, LONE, "a history in %s order" % order)


LONE = {}
COHEN = ("stft", "spectrogram", "wvd", "pwvd", "mh", "page", "ppage", "pmh")
HEAVY = ("rpmh", "rppag", "rpwv", "spwvd", "rspwv", "rsp", "rmsc", "hough")


def spaces(tier):
    deep = tier == "thorough"
    references(catalog.KEYS)
    nv = {o.name: len(o.variants) for o in catalog.OPS}
    names = sorted(catalog2.BYX, key=lambda q: (q not in COHEN, -len(catalog2.BYX[q].variants)))
    LONE.update(apart_each(lone, [k for k in catalog2.KEYS if deep or k[0] not in HEAVY], int(os.environ.get("TFTB_MC_JOBS", "8"))))
    return [
        Space("broad", [dict(name=n, i=i) for n, i in catalog2.KEYS], broad,
              "signals, windows, instants and numbers of every kind: arguments, settings, repetition, interleaved other calls", True),
        Space("alone", [dict(name=n, i=i) for n, i in catalog.KEYS], alone,
              "arguments, random state, settings, repetition and scribbled results, every operation and argument set", True),
        Space("refused", [dict(name=n, i=i) for n, i in catalog.KEYS if i == 0 or deep], failing, "calls after refused calls", True),
        Space("inplace", [dict(name=n, i=i, j=j) for n in nv for i in range(nv[n]) for j in range(nv[n]) if i != j], inplace,
              "new contents in the same arrays", True),
        Space("triples", [dict(name=n, i=i, j=j, m=m) for n in nv for i in range(nv[n]) for j in range(nv[n])
                          for m in range(nv[n]) if (deep or (i < 4 and j < 4 and m < 4)) and (i != j or j != m)], triple,
              "all sequences of three calls of one operation", True),
        Space("twins", [dict(name=n, i=i) for n in sorted(nv, key=lambda q: q not in HEAVY) for i in range(nv[n])], twin,
              "argument sets that differ in one detail", True),
        Space("sweep", [dict(name=n, order=q) for q in ("forward", "reverse") for n in [None] + names if deep or n not in HEAVY],
              sweep, "all argument sets of an operation, and of all operations, in one long history, both ways", True),
        Space("walk", [dict(name=n, order="walk", block=[p * w, p * w + w]) for n in names
                       for w in ((4 if n in HEAVY else 16),) for p in range(-(-len(catalog2.BYX[n].variants) // w))
                       if (deep and (n not in HEAVY or p < 2)) or (n not in HEAVY and (n not in COHEN or p < 1))], sweep,
              "every argument set directly after every other", True),
        Space("pairs", [dict(name=n, i=i) for n, i in catalog.KEYS if deep or i < 2], after,
              "each operation before each other operation", True)]
