"""C12: the affine distributions are what their definition says."""
import numpy as np
from tftb.processing import BertrandDistribution, DFlandrinDistribution, UnterbergerDistribution

from mc import model
from mc.core import Space
from mc.signals import sig

KINDS = {"bertrand": (BertrandDistribution, {}), "flandrin": (DFlandrinDistribution, {}),
         "active": (UnterbergerDistribution, {"form": "A"}), "passive": (UnterbergerDistribution, {"form": "P"}),
         "unterberger": (UnterbergerDistribution, {})}


def times(N, spec):
    if spec is None:
        return np.arange(N)
    a, b, st = spec
    return np.arange(a, N - b, st) if st > 0 else np.arange(N - 1 - b, a - 1, st)


def check(ctx, kind, N, x, lo=None, hi=None, K=None, ts=None, shape=None):
    s = sig(x, N)
    cls, kw = KINDS[kind]
    kw = dict(kw)
    tt = times(N, ts)
    if ts is not None:
        kw["timestamps"] = tt.copy()
    if lo is not None:
        kw["fmin"] = lo
    if hi is not None:
        kw["fmax"] = hi
    if K is not None:
        kw["n_voices"] = K
    fmin, fmax, safe = lo, hi, True
    if lo is None or hi is None:
        a, b, safe = model.affine_default(s, tt)
        fmin, fmax = (a if lo is None else lo), (b if hi is None else hi)
    if not safe or not fmin < fmax or fmax / fmin > 50:
        ctx.skip()
        return
    r = model.affine(s, fmin, fmax, kind, K, tt)
    if r is None:
        ctx.skip()
        return
    want, f, cond, energy = r
    if not energy > 1e-14 * N * (np.real(s) ** 2).sum():
        return ctx.skip()             # nothing but rounding in the band
    arg = s.copy() if shape is None else s.copy().reshape(shape)
    tfr, t, fr = ctx.call(lambda: cls(arg, **kw).run())
    ctx.same(t, tt, "time axis")
    ctx.close(fr, f, "frequency axis", atol=1e-10)
    ctx.true(not np.iscomplexobj(tfr), "not real")
    # the normalising integral may be small against the values it divides
    ctx.close(tfr, want, "%s distribution value" % kind, rtol=1e-7 * cond)
    # the energy in the band
    col = (tfr.sum(1) - tfr[:, 0] / 2.0 - tfr[:, -1] / 2.0) * abs(tt[1] - tt[0])
    vol = ((col[1:] + col[:-1]) * np.diff(f) / 2).sum() * len(f)
    ctx.close(vol, energy, "energy in the band", rtol=1e-6 * cond)


def spaces(tier):
    deep = tier == "thorough"
    lens = list(range(8, 66 if deep else 41)) + [63, 64, 65, 100]
    big = [127, 128, 129] + ([200, 255, 256, 257, 300, 400] if deep else [200, 256])
    bands = [(0.05, 0.45), (0.1, 0.4), (0.2, 0.3), (0.13, 0.5), (0.1, 0.2), (0.21, 0.47), (0.25, 0.27), (0.4, 0.5), (0.33, 0.49)]
    T = [[0, 0, 2], [1, 0, 1], [0, 5, 1], [3, 3, 1], [2, 1, 3], [0, 0, 5], [0, 0, -1], [1, 2, -2], [0, 0, -3], [0, 12, 1], [12, 0, 1]]
    rich = ["d0", "r0", "i0", "n0", "a", "s", "v0", "ch", "k:17", "b:13,31*1e-8", "b:22,43*1e6", "b:22,43*-1", "b:22,43*1e-60", "d1*1e100", "d1*1e-100"]
    sp = []
    for kind in ("bertrand", "flandrin", "active", "passive"):
        sp += [Space(kind + "-grid", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K) for N in lens for lo, hi in bands
                                      for K in (None, 4, 7, 8, 16) for x in ("d0", "r0")
                                      if (N > 13 or lo > 0.12) and (N > 19 or lo > 0.06)
                                      if N < 30 or (x == "d0" and K in (None, 8))), check,
                     "lengths x bands x numbers of voices"),
               Space(kind + "-voices", (dict(kind=kind, N=N, x="d0", lo=lo, hi=hi, K=K) for N in (16, 33) for lo, hi in ((0.1, 0.4), (0.21, 0.47))
                                        for K in list(range(4, 50)) + [63, 64, 65, 100, 128, 129, 200]), check, "every number of voices"),
               Space(kind + "-bands", (dict(kind=kind, N=N, x="r0", lo=a / 25.0 + 0.011, hi=b / 25.0 + 0.011, K=8) for N in (20, 33)
                                       for b in range(2, 13) for a in range(2, b)), check, "every band on a grid"),
               Space(kind + "-large", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K, ts=ts) for N in big for lo, hi in bands[1:3] for K in (9, 32)
                                       for x in ("b:13,31", "d0") for ts in (None, [0, 0, 7])), check, "long records"),
               Space(kind + "-longer", (dict(kind=kind, N=N, x="b:13,31", lo=lo, hi=hi, K=K, ts=[0, 0, st]) for N, K, st in [(512, 12, 31), (600, 7, 53), (130, 150, 11), (333, 64, 29), (1025, 8, 101), (256, 300, 17)] +
                                        [(N, K, 1 + N // 9) for N in (257, 300, 400, 511, 513, 700, 1000, 2048) for K in (5, 8, 17, 40, 64)]
                                        for lo, hi in bands[1:4]), check, "longer records"),
               Space(kind + "-impulses", (dict(kind=kind, N=N, x=x, lo=0.1, hi=0.4, K=K) for N in (12, 13, 16)
                                          for K in (4, 9)
                                          for x in ["e:%d" % a for a in range(N)] +
                                          ["p:%d,%d" % (a, b) for a in range(N) for b in range(a)]), check,
                     "impulses and impulse pairs"),
               Space(kind + "-defaults", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K) for N in (16, 17, 24, 32, 33, 40, 64)
                                          for lo, hi in ((None, None), (0.1, None), (None, 0.4)) for K in (None, 8)
                                          for x in ("b:13,31", "b:22,43", "b:7,37", "b:31,47", "g:%d" % (N // 2),
                                                    "g:%d" % (N // 3), "t:%d" % (2 * N // 3))
                                          if N < 64 or x == "b:7,37"), check, "band and voices left to the class"),
               Space(kind + "-times", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K, ts=ts) for N in (24, 31, 48)
                                       for x in ("b:13,31", "b:22,43") for lo, hi in ((0.1, 0.4), (None, None))
                                       for K in (None, 8) for ts in T), check, "regular subsets of instants, forwards and backwards"),
               Space(kind + "-shapes", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K, shape=sh) for N in (12, 17, 32) for x in ("d0", "b:13,31")
                                        for lo, hi in ((0.1, 0.4), (None, None)) for K in (8, None) for sh in ([N, 1], [1, N])
                                        if lo or x != "d0"), check,
                     "row and column vectors"),
               Space(kind + "-scale", (dict(kind=kind, N=N, x=x, lo=lo, hi=hi, K=K) for N in (16, 25, 40)
                                       for lo, hi in ((0.1, 0.4), (None, None), (0.21, 0.47)) for K in (8, 9)
                                       for x in rich if lo or x[0] == "b"), check, "kinds of signals, amplitude")]
    sp.append(Space("default-form", (dict(kind="unterberger", N=N, x=x, lo=0.1, hi=0.4, K=K, ts=ts) for N in (12, 17, 33) for x in ("d0", "r0")
                                     for K in (8, None) for ts in (None, [0, 0, 2])),
                    check, "the Unterberger distribution is active unless asked otherwise"))
    return sp
