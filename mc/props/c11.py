"""C11: the wide-band ambiguity function is what its definition says."""
import numpy as np
from tftb.processing import ambiguity

from mc import model
from mc.core import Space
from mc.signals import sig


def check(ctx, N, x, lo=None, hi=None, voices=None, col=False):
    s = sig(x, N)
    kw = {}
    if lo is not None:
        kw["fmin"] = lo
    if hi is not None:
        kw["fmax"] = hi
    if voices is not None:
        kw["N"] = voices
    fmin, fmax, safe = lo, hi, True
    if lo is None or hi is None:
        a, b, safe = model.wide_band_default(s)
        fmin, fmax = (a if lo is None else lo), (b if hi is None else hi)
    if not safe or not fmin < fmax:
        ctx.skip()
        return
    K = voices
    if K is None:
        K, safe = model.voices(fmin, fmax, N - 1)
        if not safe:
            ctx.skip()
            return
    ref = model.wide_band(s, fmin, fmax, K)
    if ref is None:
        ctx.skip()
        return
    want, wtau, wtheta, tol, floor = ref
    arg = s.copy().reshape(-1, 1) if col else s.copy()
    waf, tau, theta = ctx.call(ambiguity.wide_band, arg, **kw)
    ctx.close(tau, wtau, "delay axis", atol=1e-12)
    ctx.close(theta, wtheta, "log-scale axis", atol=1e-9)
    ctx.close(waf, want, "wide-band ambiguity value", rtol=tol, atol=floor)


def scaled(ctx, N, x, c, lo, hi, voices):
    s = sig(x, N)
    want, _, _, tol, floor = model.wide_band(s, lo, hi, voices)
    got = ctx.call(ambiguity.wide_band, c * s + 3j * np.arange(N), fmin=lo, fmax=hi, N=voices)[0]
    ctx.close(got, c * c * want, "ambiguity of a scaled signal with another imaginary part", rtol=tol, atol=c * c * floor)


def spaces(tier):
    deep = tier == "thorough"
    lens = list(range(4, 130 if deep else 66)) + [127, 128, 129, 200, 255, 256, 257] + ([300, 511, 512, 513] if deep else [])
    big = [300, 384, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2048]
    bands = [(0.05, 0.45), (0.1, 0.4), (0.2, 0.3), (0.01, 0.5), (0.1, 0.2), (0.31, 0.47), (0.4, 0.5), (0.25, 0.26), (0.02, 0.06)]
    rich = ["d0", "r0", "i0", "n0", "c", "a", "s", "v0", "ch", "k:17", "d0*1e-8", "d1*1e8", "r1*-3", "d0*1e-100", "d1*1e100"]
    pairs = lambda N: ["e:%d" % a for a in range(N)] + ["p:%d,%d" % (a, b) for a in range(N) for b in range(a)]  # noqa: E731
    return [
        Space("grid", (dict(N=N, x=x, lo=lo, hi=hi, voices=K) for N in lens for lo, hi in bands
                       for K in (None, 2, 3, 5, 8, 16, 33) for x in ("d0", "r0")
                       if not (K is None and N < 8) and (N < 130 or K in (None, 16, 33))), check, "lengths x bands x numbers of voices"),
        Space("voices", (dict(N=N, x="d0", lo=lo, hi=hi, voices=K) for N in (12, 17, 40) for lo, hi in bands[:3]
                         for K in list(range(2, 70)) + [100, 127, 128, 129, 200, 256]), check, "every number of voices"),
        Space("bands", (dict(N=N, x="r0", lo=a / 50.0, hi=b / 50.0, voices=K) for N in (11, 16, 33) for b in range(2, 26) for a in range(1, b)
                        for K in (None, 7, 8)), check, "every band on a grid of fiftieths"),
        Space("large", (dict(N=N, x=x, lo=lo, hi=hi, voices=K) for N in big for lo, hi in bands[:3] for K in (2, 9, 32) for x in ("d0", "b:13,31")),
              check, "long records"),
        Space("signals", (dict(N=N, x=x, lo=lo, hi=hi, voices=K, col=c) for N in (8, 13, 32, 65) for x in rich for lo, hi in bands[:3]
                          for K in (None, 8, 9) for c in (False, True)), check, "kinds of signals, amplitudes"),
        Space("impulses", (dict(N=N, x="%s*%s" % (x, c), lo=lo, hi=hi, voices=K) for N in (4, 5, 8, 9, 12)
                           for lo, hi in bands[:2] for K in (4, 7, 8) for x in pairs(N)
                           for c in (1, -2)), check, "impulses and impulse pairs"),
        Space("defaults", (dict(N=N, x=x, lo=lo, hi=hi, voices=K) for N in lens if N >= 16
                           for lo, hi in ((None, None), (0.1, None), (None, 0.4)) for K in (None, 16)
                           for x in ("d0", "r1", "b:13,31", "b:22,43", "b:7,37", "b:2,11", "b:31,47", "g:%d" % (N // 2), "ch", "t:%d" % (N // 3))
                           if N < 130 or K), check, "band and voices left to the function"),
        Space("columns", (dict(N=N, x=x, lo=lo, hi=hi, voices=K, col=True) for N in (4, 9, 16, 33) for x in ("d0", "b:13,31")
                          for lo, hi in ((0.1, 0.4), (None, None)) for K in (8, None)), check, "column vectors"),
        Space("scaled", (dict(N=N, x=x, c=c, lo=0.1, hi=0.4, voices=K) for N in (8, 13, 40) for x in ("d0", "r1")
                         for c in (1e-8, 1e6, -1, 1e-40) for K in (8, 9)), scaled, "quadratic in the real part")]
