"""C29: an omitted argument means its documented default, and it does not matter how arguments are passed."""
import itertools
import math

import numpy as np
from tftb import generators as g
from tftb import processing as p
from tftb.processing import ambiguity, linear, postprocessing as post, reassigned, utils as putils
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram,
                                   WignerVilleDistribution, PageRepresentation, PseudoPageRepresentation,
                                   PseudoMargenauHillDistribution, smoothed_pseudo_wigner_ville)
from tftb.utils import is_linear

from mc import catalog as c
from mc.core import Space, floor_of
from mc.signals import sig, window

half = lambda n: round(n / 2.0)  # noqa: E731
fifth = lambda n: round(n / 5.0)  # noqa: E731
root = lambda n: 2 * math.sqrt(n)  # noqa: E731


def odd(k):
    k = int(k)
    return k + 1 - k % 2


K = lambda v: (lambda n: v)  # noqa: E731
ham = lambda d: (lambda n: window("hm%d" % odd(n // d)))  # noqa: E731


def unit(n):
    """The default window of the pseudo Page and Margenau-Hill distributions: one at the centre."""
    h = ham(4)(n)
    return h / h[(len(h) - 1) // 2]


ALL = lambda n: np.arange(n)  # noqa: E731
SELF = lambda n: n  # noqa: E731
AM = [("t0", half, 2.25), ("spread", root, 3.5)]
X = lambda n: np.array(sig("d0", n))  # noqa: E731
XR = lambda n: np.array(sig("r0", n))  # noqa: E731
TAB = lambda n: np.abs(np.array(sig("d0", n * (n + 1)))).reshape(n, n + 1)  # noqa: E731
FLDS = lambda n: np.add.outer(np.arange(n), 1j * np.arange(n + 1)).astype(complex)  # noqa: E731
INST = lambda n: np.arange(1, n, 2)  # noqa: E731
W5 = lambda n: window("hm5")  # noqa: E731
TF = [("timestamps", ALL, INST), ("n_fbins", SELF, lambda n: n + 3), ("fwindow", ham(4), W5)]
LAB = [("timestamps", ALL, lambda n: np.arange(n) * 0.5)] + TF[1:]
BAND = [("fmin", None, 0.15), ("fmax", None, 0.4), ("n_voices", None, 6)]

# name: (function, required arguments by name (functions of the size), optional ones (name, default, another value), sizes, random)
T = {}


def add(name, fn, req, opt, sizes=range(4, 20), rng=False):
    T[name] = (fn, req, opt, list(sizes), rng)


N_ = [("n_points", SELF)]
for nm in ("amgauss", "amrect", "amtriang"):
    add(nm, getattr(g, nm), N_, AM)
add("amexpos", g.amexpos, N_, AM + [("kind", K("bilateral"), "unilateral")])
add("fmconst", g.fmconst, N_, [("fnorm", K(0.25), 0.1), ("t0", half, 3)])
add("fmlin", g.fmlin, N_, [("fnormi", K(0.0), 0.1), ("fnormf", K(0.5), 0.3), ("t0", half, 3)])
add("fmodany", g.fmodany, [("iflaw", lambda n: np.cos(np.arange(n)) / 2.0)], [("t0", K(1), 3)])
add("fmsin", g.fmsin, N_, [("fnormin", K(0.05), 0.1), ("fnormax", K(0.45), 0.4), ("period", SELF, 7.0),
                           ("t0", lambda n: n / 2.0, 3.0), ("fnorm0", K(0.25), 0.2), ("pm1", K(1), -1)], (5, 8, 9, 16))
add("fmhyp", g.fmhyp, N_ + [("p1", K((1, 0.5))), ("p2", K((4, 0.1)))], [])
add("fmpar", g.fmpar, N_ + [("coefficients", K((0.4, -0.0112, 8.6806e-05)))], [])
add("fmpower", g.fmpower, N_ + [("k", K(0.5)), ("coefficients", K((1, 0.5, 4, 0.1)))], [])
for nm, d in (("anaask", half), ("anabpsk", fifth), ("anaqpsk", fifth)):
    add(nm, getattr(g, nm), N_, [("n_comp", d, 3), ("f0", K(0.25), 0.1)], range(5, 20), rng=True)
add("anafsk", g.anafsk, N_, [("n_comp", fifth, 3), ("Nbf", K(4), 2)], range(5, 20), rng=True)
add("anapulse", g.anapulse, N_, [("ti", half, 1)])
add("anastep", g.anastep, N_, [("ti", half, 1)])
add("anasing", g.anasing, N_, [("t0", lambda n: n / 2.0, 3), ("h", K(0.0), -0.5)])
add("altes", g.altes, N_, [("fmin", K(0.05), 0.1), ("fmax", K(0.5), 0.4), ("alpha", K(300), 50)])
add("atoms", g.atoms, N_ + [("coordinates", lambda n: np.array([[2.0, 0.2, 5.0, 1.0], [3.0, 0.4, 2.0, 2.0]]))], [])
DOP = N_ + [("s_freq", K(200.0)), ("f0", K(65.0)), ("distance", K(10.0)), ("v_target", K(50.0))]
add("doppler", g.doppler, DOP, [("t0", lambda n: n / 2.0, 3), ("v_wave", K(340.0), 1500.0)])
add("dopnoise", g.dopnoise, N_ + [("s_freq", K(200.0)), ("f_target", K(60.0)), ("distance", K(10.0)), ("v_target", K(70.0))],
    [("time_center", lambda n: np.floor(n / 2.0), 2.0), ("c", K(340), 1500.0)], rng=True)
add("klauder", g.klauder, N_, [("attenuation", K(10.0), 5.0), ("f0", K(0.2), 0.3)])
add("mexhat", g.mexhat, [], [("nu", K(0.05), 0.2)], (1,))
add("gdpower", g.gdpower, N_, [("degree", K(0.0), 2.0), ("rate", K(1.0), 0.5)])
add("sigmerge", g.sigmerge, [("x1", X), ("x2", lambda n: np.array(sig("d1", n)))], [("ratio", K(0.0), 3.0)])
add("scale", g.scale, [("X", XR), ("a", K(2.0)), ("fmin", K(0.1)), ("fmax", K(0.4)), ("N", K(6))], [], range(6, 14))
add("stft", c.run(linear.ShortTimeFourierTransform), [("signal", X)], LAB)
add("spectrogram", c.run(Spectrogram), [("signal", X)], TF)
add("wvd", c.run(WignerVilleDistribution), [("signal", X)], LAB)
add("pwvd", c.run(PseudoWignerVilleDistribution), [("signal", X)], LAB)
add("mh", c.run(MargenauHillDistribution), [("signal", X)], TF)
add("page", c.run(PageRepresentation), [("signal", X)], TF)
add("ppage", c.run(PseudoPageRepresentation), [("signal", X)], TF[:2] + [("fwindow", unit, W5)])
add("pmh", c.run(PseudoMargenauHillDistribution), [("signal", X)], TF[:2] + [("fwindow", unit, W5)])
add("spwvd", smoothed_pseudo_wigner_ville, [("signal", X)], [("timestamps", ALL, INST), ("freq_bins", SELF, lambda n: n + 3),
                                                            ("twindow", ham(10), W5), ("fwindow", ham(4), lambda n: window("hm7"))],
    list(range(4, 16)) + [20, 21, 30, 31, 40])
add("gabor", linear.gabor, [("signal", X), ("n_coeff", K(4)), ("q_oversample", K(2))], [("window", None, W5)], (8, 12, 16))
add("rpwv", reassigned.pseudo_wigner_ville, [("signal", X)], TF)
add("rpmh", reassigned.pseudo_margenau_hill, [("signal", X)], TF)
add("rppag", reassigned.pseudo_page, [("signal", X)], TF)
add("rsp", reassigned.spectrogram, [("signal", X)], [("time_samples", ALL, INST), ("n_fbins", SELF, lambda n: n + 3), ("window", ham(4), W5)])
add("rspwv", reassigned.smoothed_pseudo_wigner_ville, [("signal", X)],
    [("timestamps", ALL, INST), ("n_fbins", SELF, lambda n: n + 3), ("twindow", ham(4), W5), ("fwindow", ham(4), lambda n: window("hm7"))], range(4, 16))
add("rmsc", reassigned.morlet_scalogram, [("signal", X)], [("timestamps", ALL, INST), ("n_fbins", SELF, lambda n: n + 3), ("tbp", K(0.25), 0.5)], range(6, 16))
for nm, k in (("bertrand", p.BertrandDistribution), ("dflandrin", p.DFlandrinDistribution)):
    add(nm, c.run(k), [("signal", XR)], BAND, (16, 17, 20))
add("unterberger", c.run(p.UnterbergerDistribution), [("signal", XR)], [("form", K("A"), "P")] + BAND, (16, 17, 20))
add("scalogram", c.run(p.Scalogram), [("signal", XR)], BAND[:2] + [("n_voices", SELF, 6), ("waveparams", lambda n: np.sqrt(n), 3.0)], (16, 17, 20))
add("narrow_band", ambiguity.narrow_band, [("signal", X)],
    [("lag", lambda n: np.arange(-(n // 2) + 1, n // 2) if n % 2 == 0 else np.arange(-(n // 2), n // 2 + 1), lambda n: np.array([-1, 0, 1])),
     ("n_fbins", SELF, lambda n: n + 3)])
add("wide_band", ambiguity.wide_band, [("signal", XR), ("fmin", K(0.1)), ("fmax", K(0.4))], [("N", None, 6)], (12, 13))
add("hough", post.hough_transform, [("image", TAB)], [("m", SELF, lambda n: n + 2), ("n", lambda n: n + 1, lambda n: n + 4)], range(3, 9))
add("renyi", post.renyi_information, [("tfr", TAB)], [("timestamps", lambda n: np.arange(n + 1) + 1, lambda n: np.arange(n + 1) * 3 + 2),
                                                     ("freq", lambda n: np.arange(n), lambda n: np.arange(n) / 10.0), ("alpha", K(3.0), 2.0)], range(3, 9))
add("ideal_tfr", post.ideal_tfr, [("iflaws", lambda n: (np.arange(2 * n) % 11 / 22.0).reshape(2, n))],
    [("timestamps", ALL, INST), ("n_fbins", SELF, lambda n: n + 3)], range(3, 12))
add("friedman", post.friedman_density, [("tfr", TAB), ("re_mat", FLDS)], [("timestamps", lambda n: np.arange(n + 1), lambda n: np.arange(n + 1) * 2)], range(3, 9))
add("ridges", post.ridges, [("tfr", TAB), ("re_mat", FLDS)], [("timestamps", lambda n: np.arange(n + 1), lambda n: np.arange(n + 1) * 2),
                                                             ("method", K("rsp"), "rspwv")], range(3, 9))
add("inst_freq", p.inst_freq, [("x", X)], [("t", lambda n: np.arange(2, n), lambda n: np.array([2, 3])), ("L", K(1), 1)])
add("group_delay", p.group_delay, [("x", X)], [("fnorm", None, lambda n: np.array([0.1, 0.2]))])
add("integrate_2d", putils.integrate_2d, [("mat", TAB)], [("x", lambda n: np.arange(n + 1), lambda n: np.arange(n + 1) * 2.0),
                                                         ("y", lambda n: np.arange(n), lambda n: np.arange(n) ** 1.5)], range(3, 9))
add("is_linear", is_linear, [("x", lambda n: np.arange(n) + 1e-5 * (np.arange(n) % 3))], [("decimals", K(5), 4)])


def get(v, n):
    return v(n) if callable(v) else v


def same(ctx, a, b, what):
    ctx.true(len(a) == len(b), "%s: %d results instead of %d", what, len(a), len(b))
    for i, (u, v) in enumerate(zip(a, b)):
        ctx.close(u, v, "%s, result %d" % (what, i), rtol=1e-9, atol=floor_of(what))


def call(ctx, name, n, how, pos, kw, order=1):
    fn, req, opt, _, rng = T[name]
    if rng:
        np.random.seed(5)
    return c.flat(ctx.call(fn, *pos, **dict(list(kw.items())[::order])))


def defaults(ctx, op, n, given, how):
    """Some optional arguments given as their defaults, the rest omitted."""
    fn, req, opt, _, rng = T[op]
    r = [get(v, n) for _, v in req]
    base = lambda: {q[0]: get(q[2], n) for q in opt if q[1] is None}  # noqa: E731
    ref = call(ctx, op, n, how, [get(v, n) for _, v in req], base())
    if how == "kw":
        got = call(ctx, op, n, how, r, dict(base(), **{opt[j][0]: get(opt[j][1], n) for j in given}))
    elif how == "none":
        got = call(ctx, op, n, how, r, dict(base(), **{opt[j][0]: None for j in given}))
    else:
        got = call(ctx, op, n, how, r + [get(opt[j][1], n) for j in given], base())
    same(ctx, got, ref, "%s with %s given as the default" % (op, [opt[j][0] for j in given]))


def passing(ctx, op, n, vals, split):
    """Other values, passed by position up to `split` and by name afterwards, in either order."""
    fn, req, opt, _, rng = T[op]
    names = [q for q, _ in req] + [q[0] for q in opt]
    mk = lambda: [get(v, n) for _, v in req] + [get(q[2] if b else q[1], n) for q, b in zip(opt, vals)]  # noqa: E731
    use = len(req) + len(vals)
    ref = call(ctx, op, n, "", mk()[:len(req)], dict(zip(names[len(req):use], mk()[len(req):])))
    for order in (1, -1):
        m = mk()
        got = call(ctx, op, n, "", m[:split], dict(zip(names[split:use], m[split:use])), order)
        same(ctx, got, ref, "%s with %s by position" % (op, names[:split]))


# more values of some arguments: zeros, which are values like any others, and values of another order of magnitude
MORE = {"t0": [0, 0.0], "ti": [0], "fnorm": [0.0], "fnormi": [0], "fnormf": [0.0], "degree": [0], "ratio": [0], "h": [-2], "time_center": [0],
        "decimals": [0], "waveparams": [0], "lag": [lambda n: np.array([0])], "alpha": [0.5], "f0": [0.0], "tbp": [1.0]}
NOT = {("doppler", "t0"), ("fmodany", "t0"), ("klauder", "f0"), ("group_delay", "fnorm")}
AT0 = lambda n: np.array([0])  # noqa: E731
for nm in ("spectrogram", "mh", "page", "ppage", "pmh", "spwvd", "rpwv", "rpmh", "rppag", "ideal_tfr"):
    MORE[nm, "timestamps"] = [AT0, lambda n: np.array([0, n - 1, 0])]
MORE["anafsk", "Nbf"] = [3]
MORE["altes", "alpha"] = [1e4]


def choices(op, q):
    extra = MORE.get((op, q[0]), [] if (op, q[0]) in NOT else MORE.get(q[0], []))
    return [q[2]] + list(extra)


def resolve(op, n, st):
    """Values of the optional arguments from their states: -1 omitted, -2 default, k the k-th other value."""
    fn, req, opt, _, rng = T[op]
    kw = {}
    for q, s in zip(opt, st):
        if s >= 0:
            kw[q[0]] = get(choices(op, q)[s], n)
    for q, s in zip(opt, st):
        if s == -2:
            d = DEPENDS.get((op, q[0]))
            kw[q[0]] = d(n, kw) if d else get(q[1], n)
    return kw


DEPENDS = {("fmsin", "fnorm0"): lambda n, kw: 0.5 * (kw.get("fnormin", 0.05) + kw.get("fnormax", 0.45))}


for nm, arg, bins, d in [(o, "fwindow", "n_fbins", 4) for o in ("stft", "spectrogram", "wvd", "pwvd", "mh", "page", "rpwv", "rpmh", "rppag", "rspwv")] + [
        ("rspwv", "twindow", "n_fbins", 4), ("spwvd", "fwindow", "freq_bins", 4), ("spwvd", "twindow", "freq_bins", 10)]:
    DEPENDS[nm, arg] = lambda n, kw, bins=bins, d=d: ham(d)(kw.get(bins, n))

for nm in ("ppage", "pmh"):
    DEPENDS[nm, "fwindow"] = lambda n, kw: unit(kw.get("n_fbins", n))


def mixed(ctx, op, n, st):
    """Some arguments at other values, some given as their defaults: as if the latter were omitted."""
    fn, req, opt, _, rng = T[op]
    r = lambda: [get(v, n) for _, v in req]  # noqa: E731
    ref = call(ctx, op, n, "", r(), resolve(op, n, [-1 if s == -2 else s for s in st]))
    got = call(ctx, op, n, "", r(), resolve(op, n, st))
    same(ctx, got, ref, "%s with %s given as the default" % (op, [q[0] for q, s in zip(opt, st) if s == -2]))


# (operation, argument): near zero the result hardly moves, so that zero must give nearly the same as a tiny value
NEAR = {("amgauss", "t0"): 1e-9, ("amexpos", "t0"): -1e-9, ("amrect", "t0"): 1e-9, ("amtriang", "t0"): 1e-9, ("fmconst", "t0"): 1e-9,
        ("fmconst", "fnorm"): 1e-10, ("fmlin", "t0"): 1e-9, ("fmlin", "fnormi"): 1e-10, ("fmlin", "fnormf"): 1e-10, ("fmsin", "t0"): 1e-9,
        ("fmsin", "fnormin"): 1e-10, ("anasing", "t0"): 1e-9, ("anasing", "h"): -1e-9, ("sigmerge", "ratio"): 1e-9,
        ("anaask", "f0"): 1e-10, ("anabpsk", "f0"): 1e-10, ("anaqpsk", "f0"): 1e-10, ("dopnoise", "time_center"): 1e-9, ("renyi", "alpha"): 1e-9,
        ("anapulse", "ti"): 0, ("anastep", "ti"): 1e-9, ("altes", "fmin"): 0, ("doppler", "t0"): None}


def zero(ctx, op, arg, n, val, rest):
    """An argument that happens to be zero is not an omitted one."""
    fn, req, opt, _, rng = T[op]
    r = lambda: [get(v, n) for _, v in req]  # noqa: E731
    kw = {q[0]: get(q[2], n) for j, q in enumerate(opt) if q[0] != arg and (rest or q[1] is None)}
    if op in ("amrect", "amtriang"):
        kw["spread"] = 3.37
    got = call(ctx, op, n, "", r(), dict(kw, **{arg: val}))
    near = call(ctx, op, n, "", r(), dict(kw, **{arg: NEAR[op, arg]}))
    ctx.true(len(got) == len(near), "results of %s", op)
    for a, b in zip(got, near):
        ctx.close(a, b, "%s with %s=%r against %r" % (op, arg, val, NEAR[op, arg]), rtol=1e-5, atol=1e-7)


def arrays(ctx, op, arg, n, first):
    """A single instant, lag or frequency, zero or not, gives the matching column of a longer list."""
    fn, req, opt, _, rng = T[op]
    r = lambda: [get(v, n) for _, v in req]  # noqa: E731
    one = call(ctx, op, n, "", r(), {arg: np.array([first])})[0]
    two = call(ctx, op, n, "", r(), {arg: np.array([first, first + 1])})[0]
    if np.ndim(two) == 2:
        ctx.close(np.asarray(one)[:, 0], np.asarray(two)[:, 0], "%s at one of %s" % (op, arg), rtol=1e-9)
        ctx.shape(one, (np.shape(two)[0], 1), "%s at one of %s" % (op, arg))
    else:
        ctx.close(np.ravel(one), np.ravel(two)[:1], "%s at one of %s" % (op, arg), rtol=1e-9)


ONE = [("spectrogram", "timestamps"), ("mh", "timestamps"), ("page", "timestamps"), ("ppage", "timestamps"), ("pmh", "timestamps"), ("spwvd", "timestamps"), ("rpwv", "timestamps"), ("rpmh", "timestamps"), ("rppag", "timestamps"),
       ("ideal_tfr", "timestamps"), ("narrow_band", "lag")]


NONE_OK = {"amgauss", "amrect", "amtriang", "anapulse", "anastep", "spectrogram", "wvd", "pwvd", "mh", "page", "ppage", "pmh", "stft", "spwvd", "rpwv", "rpmh",
           "rppag", "rsp", "rspwv", "narrow_band", "hough", "ideal_tfr", "friedman"}


def spaces(tier):
    D, Q = [], []
    for op, (fn, req, opt, sizes, rng) in T.items():
        known = [j for j, q in enumerate(opt) if q[1] is not None]
        for n in sizes:
            for r in range(1, len(known) + 1):
                for s in itertools.combinations(known, r):
                    D.append(dict(op=op, n=n, given=list(s), how="kw"))
                    if op in NONE_OK:
                        D.append(dict(op=op, n=n, given=list(s), how="none"))
                    if list(s) == list(range(r)):
                        D.append(dict(op=op, n=n, given=list(s), how="pos"))
            for vals in itertools.product((True, False), repeat=len(opt)):
                # what has no simple default is always given another value
                if any(not b and q[1] is None for q, b in zip(opt, vals)):
                    continue
                for split in range(len(req) + len(opt) + 1):
                    Q.append(dict(op=op, n=n, vals=list(vals), split=split))
    M, Z = [], []
    for op, (fn, req, opt, sizes, rng) in T.items():
        states = [([-1, -2] if q[1] is not None else []) + list(range(len(choices(op, q)))) for q in opt]
        full = list(itertools.product(*states))
        some = sizes if len(full) * len(sizes) < 1500 or tier == "thorough" else sizes[:: max(1, len(full) * len(sizes) // 1500)]
        for n in some:
            M += [dict(op=op, n=n, st=list(st)) for st in full if -2 in st]
    for op, arg in NEAR:
        if NEAR[op, arg] is None:
            continue
        for n in [v for v in T[op][3]] + ([21, 32, 33, 64, 65] if op in ("amgauss", "amrect", "amtriang", "amexpos", "fmconst", "fmlin") else []):
            for v in (0, 0.0):
                for rest in (True, False):
                    if not (op, arg) in (("altes", "fmin"), ) and not (op == "fmsin" and rest):
                        Z.append(dict(op=op, arg=arg, n=n, val=v, rest=rest))
    return [Space("mixed", M, mixed, "every combination of omitted, default and other values of the optional arguments"),
            Space("zeros", Z, zero, "arguments that are zero"),
            Space("single", [dict(op=o, arg=a, n=n, first=f) for o, a in ONE for n in T[o][3] for f in range(-1 if a == "lag" else 0, 3 if n > 5 else 1)], arrays,
                  "a single instant or lag"),
            Space("defaults", D, defaults, "all subsets of the optional arguments given as their defaults"),
            Space("passing", Q, passing, "default and other values of all optional arguments x by position or by name")]
