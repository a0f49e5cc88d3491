"""C22: instantaneous frequency and group delay."""
import numpy as np
from tftb.processing import group_delay, inst_freq

from mc.core import Space
from mc.signals import sig, words, polar


def circ(got, want):
    d = np.abs(got - want)
    return np.minimum(d, np.abs(0.5 - d))


def ifreq(ctx, n, x, t=None, shape=None):
    s = sig(x, n)
    arg = s.copy() if shape is None else s.copy().reshape({"col": (n, 1), "row": (1, n)}[shape])
    if t is None:
        f, tt = ctx.call(inst_freq, arg)
        wt = np.arange(2, n)
    else:
        wt = np.array(t, dtype=int)
        f, tt = ctx.call(inst_freq, arg, wt.copy().reshape(-1, 1) if shape == "col" else wt.copy())
    ctx.same(tt, wt, "instants")
    f = np.asarray(f)
    ctx.shape(f, wt.shape, "instantaneous frequency")
    p = s[wt] * np.conj(s[wt - 2])
    ok = np.abs(p) > 1e-9 * max(np.abs(s).max(), 1e-300) ** 2
    want = (np.angle(p) / (4 * np.pi)) % 0.5
    d = circ(f, want)[ok]
    ctx.true((d < 1e-9).all(), "instantaneous frequency off by %s", d.max(initial=0))
    ctx.true((f >= -1e-12).all() and (f <= 0.5 + 1e-12).all(), "outside [0, 1/2]")
    ctx.see(np.round(f, 6))


def tone(ctx, n, k, m):
    """A tone of frequency k/m has it everywhere; so has the product with any positive envelope that is slow."""
    f0 = k / float(m)
    x = np.exp(2j * np.pi * ((f0 * np.arange(n) + 0.13) % 1.0))
    f, t = ctx.call(inst_freq, x)
    ctx.true((circ(np.asarray(f), f0) < 1e-9).all(), "tone at %s: %s", f0, f)
    f, t = ctx.call(inst_freq, x * (1 + 0.5 * (np.arange(n) % 3)))
    ctx.true((circ(np.asarray(f), f0) < 1e-9).all(), "modulated tone at %s: %s", f0, f)


def delay(ctx, n, x, freqs=None, shape=None):
    s = sig(x, n)
    if not np.abs(s).any():
        return ctx.skip()
    arg = s.copy() if shape is None else s.copy().reshape({"col": (n, 1), "row": (1, n)}[shape])
    if freqs is None:
        g = ctx.call(group_delay, arg)
        k = np.arange(n)
        f = np.where(2 * k < n, k, k - n) / float(n)
        f = np.sort(f)          # from the most negative up
    else:
        f = np.array(freqs)
        g = ctx.call(group_delay, arg, f.copy())
    g = np.asarray(g)
    ctx.shape(g, f.shape, "group delay")
    E = np.exp(-2j * np.pi * np.outer(f, np.arange(n)))
    den = E @ s
    num = E @ (s * np.arange(1, n + 1))
    good = np.abs(den) > 1e-7 * np.abs(s).sum()
    r = np.real(num[good] / den[good])
    g = g[good]
    tol = 1e-6 * n + 1e-7 * np.abs(r)
    keep, drop = (r >= 1) & (r <= n + 3), (r < 1) | (r > n + 3)
    edge = (np.abs(r - 1) < tol) | (np.abs(r - n - 3) < tol)
    ok = (np.abs(g - r) < tol) & (keep | edge) | (g == 0) & (drop | edge)
    ctx.compared += 1
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        ctx.true(False, "group delay %s where the centroid is %s", g[i], r[i])
    if not s[1:].any() and s[0] in (1, -1):      # nothing to round: the delay is one everywhere
        ctx.close(g, np.ones(len(g)), "group delay of an impulse at the first sample", rtol=1e-9)
    ctx.see(np.round(g, 5))


def spaces(tier):
    deep = tier == "thorough"
    W = 7 if deep else 6
    ns = list(range(3, 200 if deep else 90)) + [100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1024, 2048, 3001, 4096]
    rich = ["d0", "r0", "i0", "j0", "n0", "v0", "s", "ch", "d1*1e-6", "d0*-2", "d1*1e8", "d0*1e-100", "d1*1e100"]
    return [
        Space("if-words", [dict(n=n, x=w) for n in range(3, W + 1) for w in words(n)], ifreq,
              "all signals over {0,1,-1,i} up to %d samples" % W),
        Space("if", [dict(n=n, x=x, shape=sh) for n in ns for x in ("d0", "d1*1e-6", "ch", "t:1", "d0*-2")
                     for sh in (None, "col", "row")], ifreq, "dense signals and chirps"),
        Space("if-signals", [dict(n=n, x=x, t=t, shape=sh) for n in (3, 8, 17, 64, 129) for x in rich + ["c", "a", "k:17"]
                             for t in (None, list(range(n - 1, 1, -1)), list(range(2, n, 3)), [2], [n - 1, 2, n - 1]) for sh in (None, "col")], ifreq,
              "kinds of signals, instants in any order"),
        Space("if-instants", [dict(n=n, x="d0", t=t, shape=sh) for n in (3, 4, 5, 6, 7, 8, 9) for sh in (None, "col")
                              for t in [[a] for a in range(2, n)] + [[a, b] for a in range(2, n) for b in range(2, n)] +
                              [[a, b, c] for a in range(2, n) for b in range(2, n) for c in range(2, n)]], ifreq,
              "every list of up to three instants"),
        Space("if-tones", [dict(n=n, k=k, m=m) for n in (3, 4, 7, 16, 33, 128, 300, 1000) for m in (2, 4, 7, 16, 31, 64, 128, 200)
                           for k in range(0, m // 2 + 1)], tone, "tones at every frequency"),
        Space("gd-words", [dict(n=n, x=w) for n in range(1, W + 1) for w in words(n)], delay, "all short signals"),
        Space("gd-pairs", [dict(n=n, x=x) for n in range(2, 20 if deep else 15) for x in polar(n)], delay, "impulse pairs"),
        Space("gd", [dict(n=n, x=x, shape=sh) for n in ns for x in ("d0", "r0", "d1*1e-6", "g:%d" % (n // 2), "e:%d" % (n // 3), "e:%d" % (n - 1))
                     for sh in (None, "col", "row")], delay, "dense signals"),
        Space("gd-signals", [dict(n=n, x=x, freqs=fr, shape=sh) for n in (1, 2, 3, 8, 17, 64, 129) for x in rich
                             for fr in (None, [0.1, -0.2, 0.45], [k / 29.0 for k in range(29)][::-1]) for sh in (None, "col", "row")], delay, "kinds of signals"),
        Space("gd-freqs", [dict(n=n, x=x, freqs=fr, shape=sh) for n in list(range(1, 40)) + [64, 65, 128, 200, 256, 512]
                           for x in ("d0", "r0", "e:%d" % (n - 1), "g:%d" % (n // 2))
                           for fr in ([0.1], [0.0, 0.25, 0.5], [0.4, 0.1, -0.3], [k / 37.0 for k in range(19)], [0.2, 0.2], [-0.5, 1.3, 0.5, 0.499],
                                      [k / float(n) for k in range(n)])
                           for sh in (None, "col")], delay, "selected frequencies")]
