"""C08: calls made by different threads do not disturb each other, under any interleaving."""
import threading
import warnings

import numpy as np

from mc import catalog
from mc.core import Space, Violation, apart
from mc.props.c07 import agree, references
from mc.threads import execute


def body(key, shared=None):
    o = catalog.BY[key[0]]
    a, k = shared if shared is not None else o.build(key[1])

    def f():
        with np.errstate(all="ignore"):
            return catalog.flat(o.fn(*a, **k))
    return f


def watched(bodies, plan, opcodes=False):
    """Run under the plan; also what each thread warned of, and whether the handling of warnings is as before."""
    said, who = [[] for _ in bodies], {}

    def told(message, category, *rest):
        t = who.get(threading.get_ident())
        if t is not None:
            said[t].append((category.__name__, str(message)))

    def named(t, b):
        def f():
            who[threading.get_ident()] = t
            return b()
        return f
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = told
        before = list(warnings.filters)
        res, cnt = execute([named(t, b) for t, b in enumerate(bodies)], plan, opcodes)
        kept = list(warnings.filters) == before and warnings.showwarning is told
    return res, cnt, said, kept


ALONE = {}          # what an operation warns of when nothing else runs


def warned(key):
    if key not in ALONE:
        good, r = apart(lambda: watched([body(key)], []))
        if not good:
            raise Violation("%s variant %d alone: %s" % (key[0], key[1], r))
        ALONE[key] = r[2][0]
    return ALONE[key]


def same_warnings(A, B, said, kept, how):
    for t, (key, s) in enumerate(zip((A, B), said)):
        if s != warned(key):
            raise Violation("%s variant %d in thread %d warns of %s under %s, alone of %s" % (key[0], key[1], t, s, how, warned(key)))
    if not kept:
        raise Violation("the handling of warnings is changed after %s and %s under %s" % (A, B, how))


def once(ctx, A, B, plan, opcodes, same):
    sh = catalog.BY[A[0]].build(A[1]) if same else None
    res, cnt, said, kept = watched([body(A, sh), body(B, sh)], plan, opcodes)
    ctx.transitions += 2
    same_warnings(A, B, said, kept, "schedule %s" % plan)
    for t, (key, (ok, out)) in enumerate(zip((A, B), res)):
        what = "%s variant %d in thread %d under schedule %s" % (key[0], key[1], t, plan)
        if not ok:
            raise Violation("%s raised %s: %s" % (what, type(out).__name__, out))
        agree(ctx, out, key, what)
    return cnt


def settle(ctx, A, B, opcodes, same):
    """Undisturbed runs first: anything built on first use is there afterwards (the space "cold" starts without)."""
    n = None
    for _ in range(4):
        c = once(ctx, A, B, [], opcodes, same)
        if c == n:
            break
        n = c
    return n


def one(ctx, a, i, b, j, opcodes=False, same=False):
    """Every schedule with at most one preemption: the first thread stops at each of its points, the second runs
    to its end, the first goes on."""
    A, B = (a, i), (b, j)
    settle(ctx, A, B, opcodes, same)
    k = 0
    while True:
        k += 1
        if once(ctx, A, B, [(0, k), (1, None)], opcodes, same)[0] <= k:
            break               # the first thread was done before its k-th point
    ctx.outcomes.add("%d points" % k)


def two(ctx, a, i, b, j, part, parts, limit, same=False):
    """Every schedule with two preemptions: first thread k points, second m points, first to its end, second."""
    A, B = (a, i), (b, j)
    na, nb = settle(ctx, A, B, False, same)
    if na * nb > limit:
        return ctx.skip()       # left to the thorough tier
    for k in range(1 + part, na + 1, parts):
        for m in range(1, nb + 1):
            once(ctx, A, B, [(0, k), (1, m), (0, None), (1, None)], False, same)
    ctx.outcomes.add("%d x %d points" % (na, nb))


def cold(ctx, a, i, b, j, part=0, parts=1):
    """As `one`, each schedule in a process in which nothing has run: races for what is built on first use."""
    A, B = (a, i), (b, j)
    k = 1 + part - parts
    while True:
        k += parts

        def f():
            with np.errstate(all="ignore"):
                return watched([body(A), body(B)], [(0, k), (1, None)])
        good, r = apart(f)
        if not good:
            raise Violation("%s and %s preempted at point %d: %s" % (A, B, k, r))
        res, cnt, said, kept = r
        ctx.transitions += 2
        same_warnings(A, B, said, kept, "preemption at point %d" % k)
        for t, (key, (ok, out)) in enumerate(zip((A, B), res)):
            what = "%s variant %d in thread %d, first calls ever, preempted at point %d" % (key[0], key[1], t, k)
            if not ok:
                raise Violation("%s raised %s: %s" % (what, type(out).__name__, out))
            agree(ctx, out, key, what)
        if cnt[0] <= k:
            break


def rendezvous(ctx, a, i, b, j, step):
    """Strict alternation with every quantum up to the given one."""
    for q in range(1, step + 1):
        plan = [(t, q) for _ in range(2000 // q) for t in (0, 1)]
        once(ctx, (a, i), (b, j), plan, False, False)


AFFINE = ["small." + k for k in ("bertrand", "dflandrin", "unterberger", "scalogram")]


def spaces(tier):
    deep = tier == "thorough"
    references([(o.name, i) for o in catalog.SMALL for i in range(len(o.variants))])
    nv = {o.name: len(o.variants) for o in catalog.SMALL}
    pairs = [(0, 1), (1, 0), (0, 2), (2, 1), (0, 0)]
    P = 16 if deep else 8
    sp = [
        Space("same-operation", [dict(a=n, i=i, b=n, j=j) for n in nv for i, j in (pairs if deep else pairs[:4])
                                 if max(i, j) < nv[n]], one,
              "two threads, one operation, all schedules with one preemption at a line boundary", True),
        Space("shared-arguments", [dict(a=n, i=i, b=n, j=i, same=True) for n in nv for i in range(nv[n] if deep else 1)], one,
              "two threads given the very same arrays", True),
        Space("cold", [dict(a=n, i=i, b=n, j=j, part=q, parts=m) for n in sorted(nv, key=lambda n: n not in AFFINE)
                      for i, j in (pairs if deep else [(0, 1), (0, 0)]) if max(i, j) < nv[n]
                      for m in (8 if n in AFFINE else 2,) for q in range(m)], cold,
              "one preemption, each schedule in a process in which nothing has run yet", True),
        Space("cross", [dict(a=a, i=0, b=b, j=0) for a in nv for b in nv
                        if a != b and (deep or (a not in AFFINE and b not in AFFINE and CROSS(a, b)))], one,
              "ordered pairs of different operations, all schedules with one preemption", True),
        Space("alternation", [dict(a=n, i=i, b=n, j=j, step=12 if deep else 4) for n in nv for i in range(nv[n])
                              for j in range(nv[n])], rendezvous, "strict alternation, every quantum", True),
        Space("two-preemptions", [dict(a=n, i=i, b=n, j=j, part=q, parts=P, limit=10 ** 6 if deep else 2500) for n in nv if deep or n not in AFFINE
                                  for i, j in ([(0, 1), (1, 0), (0, 2)] if deep else [(0, 1)]) if max(i, j) < nv[n]
                                  for q in range(P)], two,
              "two threads, one operation, all schedules with two preemptions (quick: operations with at most 2500)", True)]
    sp.append(Space("bytecode", [dict(a=n, i=i, b=n, j=j, opcodes=True) for n in nv for i, j in
                                 ([(0, 1), (1, 0)] if deep else [(0, 1)]) if deep or n not in AFFINE], one,
                    "one preemption at every bytecode boundary", True))
    return sp


def CROSS(a, b):
    """For the quick tier: pairs of operations that live in one module, or of which one generates."""
    return catalog.BY[a].fn.__module__ == catalog.BY[b].fn.__module__
