"""Every public operation of the library, each with a few small argument sets that differ in one thing at a
time (so that state kept between calls under too coarse a key shows).  Arrays are made afresh for every call."""
import warnings

import numpy as np
from tftb import utils
from tftb import generators as g
from tftb import processing as p
from tftb.processing import ambiguity, linear, postprocessing as post, reassigned, utils as putils
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram, PageRepresentation,
                                   PseudoPageRepresentation, PseudoMargenauHillDistribution,
                                   WignerVilleDistribution, smoothed_pseudo_wigner_ville)

from mc.signals import sig, window


class Arr(object):
    """A recipe for an array argument."""

    def __init__(self, make):
        self.make = make


def S(spec, n):
    return Arr(lambda: np.array(sig(spec, n)))


def W(spec):
    return Arr(lambda: window(spec))


def V(*vals):
    return Arr(lambda: np.array(vals))


def T(spec, m, n, seed=0):
    def make():
        v = np.abs(sig(spec, m * n).reshape(m, n))
        return v
    return Arr(make)


def FLD(m, n):
    return Arr(lambda: np.add.outer(np.arange(m), 1j * np.arange(n)).astype(complex))


class Op(object):
    def __init__(self, name, fn, variants, rng=False):
        self.name, self.fn, self.variants, self.rng = name, fn, variants, rng

    def build(self, i):
        a, k = self.variants[i]
        b = lambda v: v.make() if isinstance(v, Arr) else v  # noqa: E731
        return [b(v) for v in a], {q: b(v) for q, v in k.items()}


def flat(r):
    """Outputs as a list of arrays."""
    if isinstance(r, tuple):
        out = []
        for v in r:
            out += flat(v)
        return out
    return [np.array(r, copy=True)]


def run(cls):
    def f(*a, **k):
        return cls(*a, **k).run()
    f.__qualname__ = cls.__name__ + ".run"
    return f


def v(*a, **k):
    return (list(a), k)


OPS = []


def op(name, fn, *variants, **kw):
    OPS.append(Op(name, fn, list(variants), **kw))


for _n, _f in (("amgauss", g.amgauss), ("amexpos", g.amexpos), ("amrect", g.amrect), ("amtriang", g.amtriang)):
    op(_n, _f, v(8), v(9), v(8, 3), v(8, spread=2.0), v(8, 3, 5.0))
op("amexpos1", g.amexpos, v(8, kind="unilateral"), v(8, 3, kind="unilateral"), v(8, kind="bilateral"))
op("fmconst", g.fmconst, v(8), v(9), v(8, 0.1), v(8, 0.1, 3), v(8, t0=3))
op("fmhyp", g.fmhyp, v(8, (1, 0.5), (7, 0.1)), v(9, (1, 0.5), (7, 0.1)), v(8, (1, 0.5), (6, 0.2)), v(8, (2, 0.4), (7, 0.1)))
op("fmlin", g.fmlin, v(8), v(9), v(8, 0.1), v(8, 0.1, 0.3), v(8, 0.1, 0.3, 2), v(8, fnormf=0.3))
op("fmodany", g.fmodany, v(V(0.1, 0.2, 0.3, -0.1)), v(V(0.1, 0.2, 0.3, -0.1), 3), v(V(0.2, 0.1, 0.3, 0.0)))
op("fmpar", g.fmpar, v(8, (0.4, -0.0112, 8.6806e-05)), v(9, (0.4, -0.0112, 8.6806e-05)), v(8, (0.1, 0.01, 0.0)))
op("fmpower", g.fmpower, v(8, 0.5, (1, 0.5, 7, 0.1)), v(8, 2, (1, 0.5, 7, 0.1)), v(9, 0.5, (1, 0.5, 7, 0.1)), v(8, 0.5, (0.1, 0.2)))
op("fmsin", g.fmsin, v(8), v(9), v(8, 0.1), v(8, 0.1, 0.3), v(8, period=5), v(8, t0=2), v(8, fnorm0=0.3), v(8, pm1=-1))
for _n, _f in (("anaask", g.anaask), ("anabpsk", g.anabpsk), ("anaqpsk", g.anaqpsk)):
    op(_n, _f, v(10), v(11), v(10, 3), v(10, 3, 0.1), rng=True)
op("anafsk", g.anafsk, v(10), v(11), v(10, 3), v(10, 3, 2), rng=True)
op("anapulse", g.anapulse, v(8), v(9), v(8, 3), v(8, 0))
op("anastep", g.anastep, v(8), v(9), v(8, 3), v(8, 0))
op("anasing", g.anasing, v(8), v(9), v(8, 3), v(8, 3, -0.5), v(8, 3, 0.5))
op("altes", g.altes, v(8), v(9), v(8, 0.1), v(8, 0.1, 0.4), v(8, alpha=50))
op("atoms", g.atoms, v(8, V([4.0, 0.2, 5.0, 1.0])), v(9, V([4.0, 0.2, 5.0, 1.0])),
   v(8, V([4.0, 0.2, 5.0, 1.0], [6.0, 0.3, 3.0, 2.0])), v(8, V(4.0, 0.3, 5.0, 1.0)))
op("doppler", g.doppler, v(8, 200.0, 65.0, 10.0, 50.0), v(9, 200.0, 65.0, 10.0, 50.0), v(8, 200.0, 60.0, 10.0, 50.0),
   v(8, 200.0, 65.0, 5.0, 50.0), v(8, 200.0, 65.0, 10.0, 20.0), v(8, 200.0, 65.0, 10.0, 50.0, 3), v(8, 200.0, 65.0, 10.0, 50.0, v_wave=1500.0))
op("klauder", g.klauder, v(8), v(9), v(8, 5.0), v(8, f0=0.3))
op("mexhat", g.mexhat, v(), v(0.2), v(0.11))
op("gdpower", g.gdpower, v(8), v(9), v(8, 2), v(8, 2, 0.5), v(8, 1), v(8, 0.5))
op("noisecu", g.noisecu, v(8), v(9), v(2), rng=True)
op("noisecg", g.noisecg, v(8), v(9), v(2), rng=True)
op("dopnoise", g.dopnoise, v(8, 200.0, 60.0, 10.0, 70.0), v(9, 200.0, 60.0, 10.0, 70.0), v(8, 200.0, 60.0, 10.0, 20.0),
   v(8, 200.0, 60.0, 10.0, 70.0, 2.0), v(8, 200.0, 60.0, 10.0, 70.0, c=1500.0), rng=True)
op("sigmerge", g.sigmerge, v(S("d0", 8), S("d1", 8)), v(S("d0", 8), S("d1", 8), 3.0), v(S("d1", 8), S("d0", 8)), v(S("d0", 9), S("d1", 9)))
op("scale", g.scale, v(S("r0", 8), 2.0, 0.1, 0.4, 6), v(S("r1", 8), 2.0, 0.1, 0.4, 6), v(S("r0", 8), 1.5, 0.1, 0.4, 6),
   v(S("r0", 8), 2.0, 0.1, 0.3, 6), v(S("r0", 8), 2.0, 0.1, 0.4, 5), v(S("r0", 8), V(1.0, 2.0), 0.1, 0.4, 6))

op("loctime", p.loctime, v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 9)))
op("locfreq", p.locfreq, v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 9)))
op("inst_freq", p.inst_freq, v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 8), V(2, 5)), v(S("d0", 9)))
op("group_delay", p.group_delay, v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 8), V(0.1, 0.2)), v(S("d0", 9)))

_sig = [v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 9)), v(S("r0", 8)), v(S("d0*2", 8))]
_nf = [v(S("d0", 8), n_fbins=9), v(S("d0", 8), n_fbins=16)]
_win = [v(S("d0", 8), fwindow=W("hm5")), v(S("d0", 8), fwindow=W("rc5")), v(S("d0", 8), fwindow=W("hm3"))]
_ts = [v(S("d0", 8), timestamps=V(0, 2, 4, 6)), v(S("d0", 8), timestamps=V(1, 3, 5, 7))]
_lab = [v(S("d0", 8), timestamps=Arr(lambda: np.arange(8) * 0.5))]
op("stft", run(linear.ShortTimeFourierTransform), *(_sig + _nf + _win + _lab))
op("spectrogram", run(Spectrogram), *(_sig + _nf + _win + _ts))
op("wvd", run(WignerVilleDistribution), *(_sig + _nf + _lab))
op("pwvd", run(PseudoWignerVilleDistribution), *(_sig + _nf + _win + _lab))
op("mh", run(MargenauHillDistribution), *(_sig + _nf + _ts))
op("page", run(PageRepresentation), *(_sig + _nf + _ts))
op("ppage", run(PseudoPageRepresentation), *(_sig + _nf + _win + _ts))
op("pmh", run(PseudoMargenauHillDistribution), *(_sig + _nf + _win + _ts))
op("spwvd", smoothed_pseudo_wigner_ville, *(_sig + [v(S("d0", 8), freq_bins=9)] + _ts +
                                            [v(S("d0", 8), fwindow=W("hm5")), v(S("d0", 8), twindow=W("hm5")), v(S("d0", 8), twindow=W("ti3"))]))
op("gabor", linear.gabor, v(S("d0", 8), 4, 2), v(S("d1", 8), 4, 2), v(S("d0", 8), 2, 1), v(S("d0", 12), 4, 2), v(S("d0", 8), 4, 2, W("ga5")),
   v(S("d0", 16)))
op("rsp", reassigned.spectrogram, *(_sig + _nf + [v(S("d0", 8), V(0, 2, 4, 6)), v(S("d0", 8), window=W("hm5"))]))
op("rspwv", reassigned.smoothed_pseudo_wigner_ville, *(_sig + _nf + _ts + [v(S("d0", 8), fwindow=W("hm5")), v(S("d0", 8), twindow=W("hm5"))]))
op("rpwv", reassigned.pseudo_wigner_ville, *(_sig + _nf + _ts + [v(S("d0", 8), fwindow=W("hm5"))]))
op("rpmh", reassigned.pseudo_margenau_hill, *(_sig + _nf + _ts + [v(S("d0", 8), fwindow=W("hm5"))]))
op("rppag", reassigned.pseudo_page, *(_sig + _nf + _ts + [v(S("d0", 8), fwindow=W("hm5"))]))
op("rmsc", reassigned.morlet_scalogram, *(_sig + _nf + _ts + [v(S("d0", 8), tbp=0.5)]))
_aff = [v(S("r0", 16), fmin=0.1, fmax=0.4, n_voices=6), v(S("r1", 16), fmin=0.1, fmax=0.4, n_voices=6),
        v(S("r0", 17), fmin=0.1, fmax=0.4, n_voices=6), v(S("r0", 16), fmin=0.15, fmax=0.4, n_voices=6),
        v(S("r0", 16), fmin=0.1, fmax=0.3, n_voices=6), v(S("r0", 16), fmin=0.1, fmax=0.4, n_voices=7),
        v(S("r0", 16), fmin=0.1, fmax=0.4, n_voices=6, timestamps=Arr(lambda: np.arange(0, 16, 2)))]
op("bertrand", run(p.BertrandDistribution), *_aff)
op("dflandrin", run(p.DFlandrinDistribution), *_aff)
op("unterberger", run(p.UnterbergerDistribution), *(_aff + [v(S("r0", 16), form="P", fmin=0.1, fmax=0.4, n_voices=6)]))
op("scalogram", run(p.Scalogram), *(_aff + [v(S("r0", 16), fmin=0.1, fmax=0.4, n_voices=6, waveparams=2.0),
                                            v(S("r0", 16), fmin=0.1, fmax=0.4, n_voices=6, waveparams=0)]))
op("narrow_band", ambiguity.narrow_band, v(S("d0", 8)), v(S("d1", 8)), v(S("d0", 9)), v(S("d0", 8), V(-1, 0, 2)), v(S("d0", 8), n_fbins=11))
op("wide_band", ambiguity.wide_band, v(S("r0", 12), 0.1, 0.4, 6), v(S("r1", 12), 0.1, 0.4, 6), v(S("r0", 13), 0.1, 0.4, 6),
   v(S("r0", 12), 0.1, 0.3, 6), v(S("r0", 12), 0.1, 0.4, 5))
op("hough", post.hough_transform, v(T("d0", 4, 5)), v(T("d1", 4, 5)), v(T("d0", 4, 5), 6, 7), v(T("d0", 5, 4)))
op("renyi", post.renyi_information, v(T("d0", 4, 5)), v(T("d1", 4, 5)), v(T("d0", 4, 5), V(0, 1, 2, 3, 4), V(0.0, 0.1, 0.2, 0.4)),
   v(T("d0", 4, 5), alpha=2), v(T("d0", 4, 5), V(0, 2, 4, 6, 8), V(0.4, 0.1, 0.2, 0.0)), v(T("d0", 5, 4)))
op("ideal_tfr", post.ideal_tfr, v(V([0.1, 0.2, 0.3, 0.4])), v(V([0.1, 0.2, 0.3, 0.5])), v(V([0.1, 0.2, 0.3, 0.4]), V(0, 2)),
   v(V([0.1, 0.2, 0.3, 0.4]), n_fbins=7), v(V([0.1, 0.2, np.nan, 0.4], [0.0, 0.5, 0.3, 0.1])))
op("friedman", post.friedman_density, v(T("d0", 4, 5), FLD(4, 5)), v(T("d1", 4, 5), FLD(4, 5)))
op("ridges", post.ridges, v(T("d0", 4, 5), FLD(4, 5)), v(T("d1", 4, 5), FLD(4, 5)), v(T("d0", 4, 5), FLD(4, 5), V(1, 3, 5, 7, 9)),
   v(T("d0", 4, 5), FLD(4, 5), method="rspwv"))
op("is_linear", utils.is_linear, v(V(1, 2, 3)), v(V(1, 2, 4)), v(V(1.0, 2.0, 3.001), 2))
op("izak", utils.izak, v(T("d0", 3, 4)), v(T("d0", 4, 3)), v(T("d1", 3, 4)))
op("nextpow2", utils.nextpow2, v(5), v(8), v(9))
op("divider", utils.divider, v(12), v(13), v(16))
op("nearest_odd", utils.nearest_odd, v(4), v(5), v(V(1.5, 2.0, 3.0)))
op("modulo", utils.modulo, v(V(0, 1, 2, 3, 4, 5), 3), v(V(0, 1, 2, 3, 4, 5), 4))
op("integrate_2d", putils.integrate_2d, v(T("d0", 4, 5)), v(T("d1", 4, 5)), v(T("d0", 4, 5), V(0, 2, 4, 6, 8), V(0.0, 0.1, 0.3, 0.4)))
op("derive_window", putils.derive_window, v(W("hm7")), v(W("as7")), v(W("hm5")))
op("get_spectrum", putils.get_spectrum, v(S("d0", 8)), v(S("d1", 8)))

BY = {o.name: o for o in OPS}
KEYS = [(o.name, i) for o in OPS for i in range(len(o.variants))]


def invoke(key, seed=3):
    """Run one operation on fresh arguments; (outputs, args)."""
    o = BY[key[0]]
    a, k = o.build(key[1])
    if o.rng:
        np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return flat(o.fn(*a, **k)), (a, k)


# The deterministic operations on the smallest inputs that still reach their loops: two or three argument sets of
# equal shape and one of another shape, for exploring interleavings.
def _s(n, *kw):
    return [v(S("d0", n), **k) for k in (kw or ({},))] + [v(S("d1", n), **k) for k in (kw or ({},))] + [v(S("d0", n + 1))]


def _t(fn, *variants):
    return list(variants)


_TINY = {
    "stft": _s(3), "spectrogram": _s(3), "wvd": _s(3), "pwvd": _s(3, dict(fwindow=W("hm3"))), "mh": _s(3),
    "page": _s(3), "ppage": _s(3, dict(fwindow=W("hm3"))), "pmh": _s(3, dict(fwindow=W("hm3"))),
    "spwvd": _s(3, dict(fwindow=W("hm3"), twindow=W("ti3"))),
    "rsp": _s(3, dict(window=W("hm3"))), "rpwv": _s(3, dict(fwindow=W("hm3"))), "rpmh": _s(3, dict(fwindow=W("hm3"))),
    "rppag": _s(3, dict(fwindow=W("hm3"))), "rspwv": _s(3, dict(fwindow=W("hm3"), twindow=W("ti3"))),
    "rmsc": _s(4, dict(n_fbins=2)),
    "gabor": [v(S("d0", 4), 2, 1), v(S("d1", 4), 2, 1), v(S("d0", 6), 2, 1)],
    "hough": [v(T("d0", 2, 2)), v(T("d1", 2, 2)), v(T("d0", 2, 3))],
    "narrow_band": [v(S("d0", 4)), v(S("d1", 4)), v(S("d0", 5))],
    "wide_band": [v(S("r0", 6), 0.1, 0.4, 4), v(S("r1", 6), 0.1, 0.4, 4), v(S("r0", 7), 0.1, 0.4, 4)],
    "scale": [v(S("r0", 5), 2.0, 0.1, 0.4, 3), v(S("r1", 5), 2.0, 0.1, 0.4, 3), v(S("r0", 5), 1.5, 0.1, 0.4, 4)],
    "ridges": [v(T("d0", 2, 2), FLD(2, 2)), v(T("d1", 2, 2), FLD(2, 2)), v(T("d0", 3, 2), FLD(3, 2))],
    "friedman": [v(T("d0", 2, 2), FLD(2, 2)), v(T("d1", 2, 2), FLD(2, 2)), v(T("d0", 3, 2), FLD(3, 2))],
    "ideal_tfr": [v(V([0.1, 0.2])), v(V([0.3, 0.5])), v(V([0.1, 0.2, 0.4]))],
    "izak": [v(T("d0", 2, 2)), v(T("d1", 2, 2)), v(T("d0", 3, 2))],
}
# laws that leave [0, 1/2] (which is warned of) and laws that do not
_TINY["fmhyp"] = [v(4, (1, 0.8), (4, 0.1)), v(4, (1, 0.4), (4, 0.1)), v(5, (1, 0.7), (4, 0.2))]
_TINY["fmpar"] = [v(4, (0.4, 0.2, 0.0)), v(4, (0.1, 0.02, 0.001)), v(5, (0.4, 0.0, -0.2))]
_TINY["fmpower"] = [v(4, 2, (1, 0.8, 4, 0.1)), v(4, 2, (1, 0.4, 4, 0.1)), v(5, 0.5, (1, 0.7, 4, 0.2))]
for _k in ("bertrand", "dflandrin", "unterberger"):
    _TINY[_k] = [v(S("r0", 14), fmin=0.25, fmax=0.4, n_voices=2), v(S("r1", 14), fmin=0.25, fmax=0.4, n_voices=2),
                 v(S("r0", 15), fmin=0.25, fmax=0.4, n_voices=2)]
_TINY["scalogram"] = [v(S("r0", 6), fmin=0.2, fmax=0.4, n_voices=2), v(S("r1", 6), fmin=0.2, fmax=0.4, n_voices=2),
                      v(S("r0", 7), fmin=0.2, fmax=0.4, n_voices=2)]
SMALL = [Op("small." + o.name, o.fn, _TINY.get(o.name, o.variants[:3])) for o in OPS if not o.rng]
for _o in SMALL:
    BY[_o.name] = _o
