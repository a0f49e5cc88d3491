"""C31: an operation stopped at any point by an exception from outside leaves nothing behind."""
import ast
import copy
import glob
import os
import pickle
import sys
import warnings

import matplotlib.pyplot as plt
import numpy as np

from mc import catalog, env
from mc.core import Space, Violation, apart
from mc.props import c06, c07

ROOT = os.path.join(env.REPO, "tftb") + os.sep
EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


def _unguarded():
    """Lines at which no code can protect itself: the leaving of `with` blocks, and the clean-up itself."""
    out = set()
    for p in glob.glob(ROOT + "**/*.py", recursive=True):
        if os.sep + "tests" + os.sep in p:
            continue
        with open(p) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update((p, k) for k in range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                out.update((p, k) for b in n.finalbody for k in range(b.lineno, b.end_lineno + 1))
                out.update((p, k) for h in n.handlers for k in range(h.lineno, h.end_lineno + 1))
                out.add((p, n.lineno))
            elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__", "__enter__"):
                out.update((p, k) for k in range(n.lineno, n.end_lineno + 1))
    return out


LINES = []


def unguarded():
    if not LINES:
        LINES.append(_unguarded())
    return LINES[0]


def traced(fn, stop=None, exc=None):
    """Run fn; raise `exc` at its stop-th line inside the library.  Returns (the lines passed, whether it was stopped)."""
    passed, skip = [], unguarded()

    def line(frame, event, arg):
        if event == "line" and (frame.f_code.co_filename, frame.f_lineno) not in skip:
            passed.append((frame.f_code.co_filename, frame.f_lineno))
            if stop is not None and len(passed) > stop:
                raise exc("stopped from outside")
        return line

    def calls(frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        f = frame.f_back
        while f is not None:
            if (f.f_code.co_filename, f.f_lineno) in skip:
                return None
            f = f.f_back
        return line
    old = sys.gettrace()
    sys.settrace(calls)
    try:
        fn()
        hit = False
    except (KeyboardInterrupt, MemoryError) as e:
        if "stopped from outside" not in str(e):
            raise
        hit = True
    finally:
        sys.settrace(old)
    return passed, hit


def points(passed, most):
    """Every line passed, if there are few; otherwise the first, second and last pass of each, and a regular rest."""
    n = len(passed)
    if n <= most:
        return list(range(n))
    seen, keep, last = {}, set(), {}
    for i, p in enumerate(passed):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= 2:
            keep.add(i)
        last[p] = i
    keep.update(last.values())
    keep.update(range(0, n, max(1, n // most)))
    return sorted(keep)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def call(ctx, name, i, exc, most):
    """One operation, stopped everywhere; after each stop it answers as ever."""
    key, o = (name, i), catalog.BY[name]

    def start(a, k):
        if o.rng:
            np.random.seed(3)
        return o.fn(*a, **k)
    np.seterr(all="warn")
    stops, passed = plan(name, i, most)
    ctx.transitions += 1
    others = [(name, j) for j in range(len(o.variants)) if j != i][:2]
    for at in stops:
        where = "%s:%d" % (os.path.basename(passed[at][0]), passed[at][1])
        a, k = o.build(i)
        before, random, glob_ = pickle.dumps((a, k)), pickle.dumps(np.random.get_state()), c07.settings()
        _, hit = traced(lambda: start(a, k), at, EXC[exc])
        ctx.transitions += 1
        ctx.outcomes.add("stopped" if hit else "finished")
        what = "%s variant %d stopped at line event %d (%s)" % (name, i, at, where)
        ctx.true(pickle.dumps((a, k)) == before, "%s: modified its arguments", what)
        ctx.true(c07.settings() == glob_, "%s: changed a global setting", what)
        if not o.rng:
            ctx.true(pickle.dumps(np.random.get_state()) == random, "%s: consumed random numbers", what)
        ctx.transitions += 1
        try:
            got = catalog.flat(start(a, k))
        except Exception as e:
            raise Violation("%s: the next call: %s: %s" % (what, type(e).__name__, e))
        c07.agree(ctx, got, key, what + ", the next call")
        for other in others:
            c07.agree(ctx, invoked(ctx, other, what), other, what + ", a call with other arguments")
    for other in catalog.KEYS:
        if other[1] == 0:
            c07.agree(ctx, invoked(ctx, other, name), other, "%s variant 0 after %s was stopped everywhere" % (other[0], name))


def plan(name, i, most):
    """Where to stop; found out in another process, so that nothing has run in this one."""
    def look():
        o = catalog.BY[name]
        a, k = o.build(i)
        passed, _ = traced(lambda: o.fn(*a, **k))
        return points(passed, most), passed
    ok, r = apart(look)
    if not ok:
        raise Violation("%s variant %d: %s" % (name, i, r))
    return r


def cold(ctx, name, i, exc, most):
    """Stopped in a process in which nothing has run before, at every point in turn."""
    key, o = (name, i), catalog.BY[name]
    stops, passed = plan(name, i, most)
    stops = [q for q in stops if passed.index(passed[q]) == q]        # the first pass of every line

    def history(at):
        np.seterr(all="warn")
        a, k = o.build(i)
        before, glob_ = pickle.dumps((a, k)), c07.settings()
        if o.rng:
            np.random.seed(3)
        _, hit = traced(lambda: o.fn(*a, **k), at, EXC[exc])
        same = pickle.dumps((a, k)) == before, c07.settings() == glob_
        return hit, same, [catalog.invoke(q)[0] for q in [key] + [(name, j) for j in range(len(o.variants)) if j != i][:1]]
    for at in stops:
        what = "%s variant %d stopped at line event %d (%s:%d) of its first run" % (name, i, at, os.path.basename(passed[at][0]), passed[at][1])
        ok, r = apart(history, at)
        ctx.transitions += 3
        ctx.true(ok, "%s, then: %s", what, r)
        ctx.outcomes.add("stopped" if r[0] else "finished")
        ctx.true(r[1][0], "%s: modified its arguments", what)
        ctx.true(r[1][1], "%s: changed a global setting", what)
        for got, q in zip(r[2], [key] + [(name, j) for j in range(len(o.variants)) if j != i][:1]):
            c07.agree(ctx, got, q, "%s; variant %d next" % (what, q[1]))


def invoked(ctx, key, what):
    ctx.transitions += 1
    try:
        return catalog.invoke(key)[0]
    except Exception as e:
        raise Violation("%s, then %s variant %d: %s: %s" % (what, key[0], key[1], type(e).__name__, e))


def computed(ctx, name, cfg, exc, ran):
    """An object whose computation is stopped computes, when asked again, what a new one does."""
    _, fresh = c06.make(name, cfg)
    ref = [np.array(v, copy=True) for v in ctx.call(fresh.run)]
    s, o = c06.make(name, cfg)
    if ran:
        o.run()
    passed, _ = traced(lambda: quiet(o.run))
    for at in points(passed, 300):
        s, o = c06.make(name, cfg)
        s0 = s.copy()
        given = [np.array(v, copy=True) for v in o.run()] if ran else None
        _, hit = traced(lambda: quiet(o.run), at, EXC[exc])
        what = "%s.run() stopped at line event %d (%s:%d)" % (name, at, os.path.basename(passed[at][0]), passed[at][1])
        ctx.outcomes.add("stopped" if hit else "finished")
        ctx.true(np.array_equal(s, s0), "%s: changed the signal", what)
        other = copy.deepcopy(o)
        for who in (o, other):
            try:
                r = ctx.call(who.run)
            except Violation as e:
                raise Violation("%s, then run(): %s" % (what, e))
            ctx.compared += 1
            ctx.true(c06.equal(r, ref), "%s: the next run() differs from that of a new object", what)
        if given is not None:
            ctx.true(c06.equal(given, ref), "first run")


def drawn(ctx, name, cfg, op, exc):
    """A plot that is stopped leaves the object and the settings as they were."""
    s, o = c06.make(name, cfg)
    ref = [np.array(v, copy=True) for v in o.run()]
    c06.show(o, op)
    plt.close("all")
    np.seterr(all="warn")
    passed, _ = traced(lambda: quiet(lambda: c06.show(o, op)))
    plt.close("all")
    for at in points(passed, 60):
        glob_ = c07.settings()
        _, hit = traced(lambda: quiet(lambda: c06.show(o, op)), at, EXC[exc])
        plt.close("all")
        ctx.transitions += 1
        ctx.outcomes.add("stopped" if hit else "finished")
        what = "plot %s of a %s stopped at line event %d (%s:%d)" % (op, name, at, os.path.basename(passed[at][0]), passed[at][1])
        ctx.true(c06.equal((o.tfr, o.ts, o.freqs), ref[:3]), "%s: changed the results it holds", what)
        ctx.true(c07.settings() == glob_, "%s: changed a global setting", what)
    pic = c06.show(o, op)[0]
    plt.close("all")
    _, n = c06.make(name, cfg)
    n.run()
    want = c06.show(n, op)[0]
    plt.close("all")
    ctx.compared += 1
    ctx.true(c06.alike(pic, want), "a plot %s of a %s looks different after plots were stopped", op, name)
    ctx.true(c06.equal(ctx.call(o.run), ref), "run() after stopped plots")


def setups(name):
    """The configurations of C06, and windows which are complex or not one at their centre."""
    more = [dict(x="d0", n=7, n_fbins=10, fwindow=h) for h in ("vr5*3", "as3", "cx5")] if name in c06.SHORT and \
        any("fwindow" in q for q in c06.configs(name)) else []
    return c06.configs(name) + [q for q in more if q["fwindow"] != "cx5" or name in ("ShortTimeFourierTransform", "Spectrogram")]


def spaces(tier):
    deep = tier == "thorough"
    keys = [(n, i) for n, i in catalog.KEYS]
    c07.references(keys)
    unguarded()
    sp = [Space("calls", [dict(name=n, i=i, exc=e, most=(400 if deep else 120) if i < 2 or deep else 30)
                          for n, i in keys for e in (("interrupt", "memory") if i == 0 or deep else ("interrupt",))], call,
                "every operation and argument set, stopped at every line (of long runs: two passes and the last of every line)", True),
          Space("cold", [dict(name=n, i=i, exc="memory" if i else "interrupt", most=(200 if deep else 40)) for n, i in keys if i < (99 if deep else 2)], cold,
                "the very first run of a process stopped", True),
          Space("computations", [dict(name=n, cfg=c, exc=e, ran=r) for n in c06.CLS for j, c in enumerate(setups(n))
                                 for e in (("interrupt", "memory") if j == 0 or deep else ("interrupt",)) for r in (False, True)], computed,
                "computations of representation objects stopped at every line, first and second ones", True),
          Space("plots", [dict(name=n, cfg=c06.configs(n)[0], op=q, exc="interrupt") for n in c06.CLS
                          for q in (("cmap", "tf", "contour", "ctf", "half", "levels", "own") if deep else ("cmap", "ctf", "half"))], drawn,
                "plots stopped at every line", True)]
    return sp
