"""More argument sets of the same operations: signals of every kind and size regime, every optional argument, integer and
floating point arrays, values on the edge of the domain (including ones that an operation may refuse).  Used where each
argument set is a history of its own (C07)."""
import numpy as np

from mc.catalog import Arr, BY, FLD, Op, S, V, W, v
from mc.signals import sig, _dense

EXTRA = {}


def add(name, *variants):
    EXTRA.setdefault(name, []).extend(variants)


def I(n, dt, k=0):
    return Arr(lambda: np.round(100 * _dense(n, k)).astype(dt))


def F(*vals):
    return Arr(lambda: np.array(vals, float))


def TB(m, n, k=0, dt=float, off=0.46):
    return Arr(lambda: ((_dense(m * n, k) + off) * (1 if dt is float else 100)).astype(dt).reshape(m, n))


def ar(*a, **k):
    return Arr(lambda: np.arange(*a, **k))


SIGS = [S(s, n) for n in (6, 11, 32, 65) for s in ("d0", "r0", "z", "e:0", "c", "a", "s", "v0", "n0", "j0", "d1*1e-9", "d1*1e9", "k:17")] + \
    [S("d0", n) for n in (2, 3, 4, 5, 128, 130, 257)] + [S("r0", n) for n in (128, 257)] + \
    [I(n, d) for n in (12, 33) for d in ("int16", "int64", "uint8")] + \
    [Arr(lambda: np.array(sig("d0", 12)).reshape(12, 1)), Arr(lambda: np.array(sig("d0", 12)).reshape(1, 12)), Arr(lambda: np.array(sig("d0", 24))[::2]),
     Arr(lambda: np.array(sig("r0", 12)).astype(np.float32)), Arr(lambda: np.array(sig("d0", 12)).astype(np.complex64))]
WIN = [W(k + n) for n in ("1", "3", "7", "15") for k in ("hm", "rc", "as", "ng")] + [W("hm7*1e-6"), W("cx5"), W("zz5"), Arr(lambda: np.ones(5, int))]
for op in ("stft", "spectrogram", "wvd", "pwvd", "mh", "page", "ppage", "pmh", "rpwv", "rpmh", "rppag", "rsp", "rspwv", "spwvd"):
    bins = "freq_bins" if op == "spwvd" else "n_fbins"
    tk = "time_samples" if op == "rsp" else "timestamps"
    add(op, *[v(x) for x in SIGS])
    add(op, *[v(S("d0", 12), **{bins: b}) for b in (2, 5, 7, 16, 33, 64)])
    ws = {"rsp": ["window"], "rspwv": ["fwindow", "twindow"], "spwvd": ["fwindow", "twindow"]}.get(op, ["fwindow"])
    add(op, *[v(S(s, 12), **{w: h}) for w in ws for h in WIN for s in ("d0", "r0")])
    add(op, *[v(S("d0", 12), **{tk: t}) for t in (ar(0, 12, 3), ar(11, -1, -1), ar(12), ar(12, dtype=float), ar(1, 13), V(5), V(0, 0, 3))])
    add(op, v(S("d0", 40), **{tk: ar(0, 40, 4), bins: 50, ws[0]: W("hm9")}), v(S("r0", 200), **{bins: 16, ws[0]: W("as33")}))
for op in ("bertrand", "dflandrin", "unterberger", "scalogram"):
    b = dict(fmin=0.1, fmax=0.4, n_voices=6)
    add(op, *[v(S(s, n), **b) for n in (15, 16, 33) for s in ("r0", "d0", "k:17", "v0", "z", "e:3", "r0*1e-9", "b:13,31")])
    add(op, v(S("b:13,31", 32)), v(S("b:13,31", 33)), v(S("b:13,31", 64), n_voices=9), v(S("r0", 65), fmin=0.05, fmax=0.45, n_voices=12), v(I(16, "int16"), **b),
        v(S("r0", 16), timestamps=ar(15, -1, -1), **b), v(S("r0", 16), timestamps=ar(2, 14, 3), **b), v(S("r0", 130), n_voices=5, fmin=0.2, fmax=0.3))
add("scalogram", *[v(S("r0", 20), fmin=0.15, fmax=0.4, n_voices=5, waveparams=w) for w in (0, 1, 0.3, 5.5, 12, F(1.0, 2.0, 1.0), Arr(lambda: np.hamming(9)))])
add("unterberger", *[v(S("r0", 20), form=f, fmin=0.15, fmax=0.4, n_voices=5) for f in ("A", "P")])
add("rmsc", *[v(x) for x in SIGS], v(S("d0", 12), ar(0, 12, 3)), v(S("d0", 12), ar(11, -1, -2)), v(S("d0", 12), tbp=2.0), v(S("r0", 12), n_fbins=5, tbp=0.1))
add("gabor", *[v(S(s, n), a, q) for s in ("d0", "r0", "z", "v0", "e:1") for n, a, q in ((8, 4, 2), (12, 4, 1), (12, 3, 3), (36, 6, 2), (64, 16, 2), (30, 6, 1))])
add("gabor", *[v(S("d0", 24), 4, 2, w) for w in WIN], v(S("d0", 64)), v(S("d0", 81)), v(I(24, "int16"), 4, 2))
for op in ("loctime", "locfreq", "inst_freq", "group_delay", "narrow_band", "get_spectrum"):
    add(op, *[v(x) for x in SIGS])
add("group_delay", *[v(S(s, n), f) for s in ("d0", "c", "a", "k:25", "e:2", "z") for n in (8, 9, 32)
                     for f in (F(0.0), F(0.25), F(0.0, 0.125, 0.25, 0.375, 0.5), F(-0.25, 0.1), F(0.1, 0.1), F(0.3, 0.2, 0.05))])
add("inst_freq", *[v(S(s, n), t) for s in ("d0", "c", "l:3,5", "a") for n in (8, 9, 32) for t in (V(2), V(2, 3, 4), V(6, 2), V(3, 3), ar(2, n - 1), F(2, 3), V([2], [3]))])
add("narrow_band", *[v(S("d0", n), lag) for n in (7, 8, 33) for lag in (V(0), V(-2, 0, 2), V(3, 1, -1), F(0, 1, 2), V(1, 1))], v(S("d0", 8), n_fbins=8), v(S("d0", 8), V(1), 30))
add("wide_band", *[v(S(s, n), lo, hi, N) for s in ("r0", "d0", "k:17", "z", "v0") for n in (12, 13, 33) for lo, hi, N in ((0.1, 0.4, 6), (0.05, 0.3, 9), (0.2, 0.25, 4))])
add("wide_band", v(S("b:13,31", 32)), v(S("b:13,31", 33)), v(S("r0", 16), 0.1, 0.4), v(I(16, "int16"), 0.1, 0.4, 6))
for op in ("hough", "renyi", "integrate_2d"):
    add(op, *[v(TB(m, n, k)) for m, n in ((2, 2), (3, 5), (8, 4), (20, 21), (33, 40)) for k in (0, 1)], v(TB(4, 5, 0, float, 0.0)), v(TB(4, 5, 0, int)), v(TB(6, 6, 1, np.int16)),
        v(Arr(lambda: np.zeros((4, 5)))), v(Arr(lambda: np.asfortranarray(_dense(20, 1).reshape(4, 5) + 0.5))))
add("hough", *[v(TB(5, 6), m, n) for m, n in ((2, 3), (9, 20), (50, 4))])
add("renyi", *[v(TB(5, 6), t, f, a) for t in (ar(6), ar(6, dtype=float), F(0, .5, 1, 1.5, 2, 2.5), ar(5, -1, -1), ar(1, 7)) for f in (F(0.4, 0.1, 0.2, 0.3, 0.0), F(0, 1, 2, 3, 4), V(0, 2, 4, 6, 9))
               for a in (1, 2, 3.0, 0.5)])
add("integrate_2d", *[v(TB(5, 6), x, y) for x in (ar(6), F(0, .5, 1, 1.5, 2, 2.5)) for y in (F(0, 0.1, 0.3, 0.4, 0.7), ar(5), ar(4, -1, -1))])
add("ideal_tfr", *[v(Arr(lambda n=n, k=k: (np.array([_dense(n, j) for j in range(k)]) + 0.45) / 2)) for n in (3, 8, 40) for k in (1, 2, 4)])
add("ideal_tfr", *[v(F([0.1, 0.2, np.nan, 0.4, 0.0, 0.5]), t, b) for t in (V(0, 5), V(3), V(5, 4, 3), V(2, 2)) for b in (None, 1, 9)], v(Arr(lambda: np.full((2, 4), np.nan))))
for op in ("friedman", "ridges"):
    add(op, *[v(TB(m, n, k, float, o), FLD(m, n)) for m, n in ((2, 2), (3, 7), (20, 6), (130, 4)) for k in (0, 1) for o in (0.46, 0.1)], v(TB(5, 6, 0, int), FLD(5, 6)))
    add(op, *[v(TB(5, 6), FLD(5, 6), t) for t in (ar(6), ar(6, dtype=float), ar(5, -1, -1), ar(0, 18, 3))])
add("ridges", *[v(TB(5, 6), FLD(5, 6), method=m) for m in ("rsp", "RSP", "type1", "rspwv", "Rspwv")], *[v(TB(5, 6), Arr(lambda: FLD(5, 6).make().real), method=m) for m in ("rpwv", "rpmh")])
add("is_linear", *[v(x) for x in (F(1, 2, 3), F(1, 2, 3.1), ar(50), ar(5, -1, -1), I(9, "uint8"), F(0, 0, 0))], v(F(1, 2, 3.04), 1), v(F(1, 2, 3.04), 0))
add("izak", *[v(Arr(lambda n=n, m=m: np.array(sig("d0", n * m)).reshape(n, m))) for n, m in ((1, 1), (1, 5), (5, 1), (4, 4), (7, 3), (16, 16))], v(S("d0", 6)), v(TB(3, 4, 0, int)))
add("nextpow2", v(1), v(2), v(1000), v(7.5), v(ar(1, 9)), v(F(1, 2, 3, 100)))
add("divider", v(1), v(2), v(97), v(360), v(1024), v(999))
add("nearest_odd", v(0), v(-3), v(2.5), v(F(0, 1, 2, 3)), v(ar(9)), v(F(-2, -1.5, 0.5, 7.9)), v([1, 2, 3.5]), v((1, 2)), v(range(4)))
add("modulo", *[v(x, n) for x in (ar(9), ar(9, dtype=float), F(-3, 0, 3, 6), F(0.5, 1.5, 3), ar(-6, 7), [0, 1, 2, 3], ar(8, -1, -1)) for n in (1, 2, 3, 5)])
add("derive_window", *[v(w) for w in WIN], v(I(9, "int16")), v(F(1, 2, 3, 2, 1)))
for op in ("amgauss", "amexpos", "amrect", "amtriang"):
    add(op, *[v(n) for n in (1, 2, 64, 257)], v(16, 0), v(16, 4.5, 3.3), v(16, -5), v(16, 40, 2), v(33, spread=0.5), v(33, 16, 100.0))
add("fmconst", *[v(n, f, t) for n in (1, 2, 64, 257) for f in (0, 0.5, -0.3) for t in (0, 1, 3.5)])
add("fmlin", *[v(n, a, b, t) for n in (2, 64, 257) for a, b in ((0, 0.5), (0.5, -0.5), (0.2, 0.2)) for t in (0, 1, 3)])
add("fmodany", *[v(Arr(lambda n=n: 0.4 * np.cos(np.arange(n))), t) for n in (2, 17, 64) for t in (1, 2)], v(F([0.1], [0.2], [0.3])), v(F(0, 0, 0)), v(V(0, 0)))
add("fmsin", *[v(n, a, b, p, t, f, q) for n in (2, 33) for a, b, f in ((0.1, 0.4, 0.2), (0.05, 0.45, 0.45), (0.0, 0.3, 0.0)) for p in (n, 3.3) for t in (0, 2.5) for q in (1, -1)])
add("fmhyp", *[v(16, p, q) for p, q in ((F(1, 0.5), F(9, 0.1)), ([1, 0.4], [9, 0.2]), ((1, 0.2), (12, 0.4)), (F(1.5, 0.5), F(14, 0.05)))], v(130, (1, 0.5), (32, 0.1)))
add("fmpar", *[v(16, c) for c in (F(0.4, -0.0112, 8.6806e-05), [0.1, 0.01, 0.0], F(0, 0, 0))], *[v(64, p, q, r) for p, q, r in (((1, 0.4), (32, 0.05), (64, 0.4)), (F(1, 0.4), F(32, 0.05), F(64, 0.4)))])
add("fmpower", *[v(16, k, c) for k in (0.5, 2, 0.1, 3) for c in (F(1, 0.5, 9, 0.1), [1, 0.5, 9, 0.1], (0.1, 0.2), F(0.1, 0.2))])
add("atoms", *[v(n, c) for n in (1, 9, 64) for c in (F(4, 0.2, 5, 1), F([4, 0.2, 5, 1], [6, 0.3, 3, 2]), F([-4, 0.7, 5, 1], [60, -0.3, 3, 2], [3.3, 0.1, 1, 0]), V([2, 0, 3, 1]))])
add("anapulse", *[v(n, t) for n in (1, 2, 9, 64) for t in (0, n - 1, 3, 100)])
add("anastep", *[v(n, t) for n in (1, 2, 9, 64) for t in (0, n - 1, 3.5, -4, 100)])
add("anasing", *[v(n, t, h) for n in (4, 9, 64) for t in (1, 2.5, 0) for h in (0, -1, 0.5, 2)])
add("altes", *[v(n, a, b, c) for n in (2, 9, 64) for a, b, c in ((0.05, 0.5, 300), (0.1, 0.3, 5), (0.2, 0.4, 1e4))])
add("klauder", *[v(n, a, f) for n in (1, 2, 9, 64) for a, f in ((10, 0.2), (1, 0.4), (50.0, 0.01))])
add("mexhat", *[v(f) for f in (0.01, 0.05, 0.1, 0.25, 0.5)])
add("gdpower", *[v(n, k, c) for n in (4, 9, 64) for k in (0, 1, 2, 0.5, -1, 3.5) for c in (1, -1, 0.3)])
add("doppler", *[v(n, fs, f, d, w) for n in (2, 9, 64) for fs, f in ((200.0, 65.0), (100, 0), (100, 50)) for d in (10.0, 0.5) for w in (0, 400.0)])
add("sigmerge", *[v(S(a, n), S(b, n), r) for n in (1, 9, 64) for a in ("d0", "r0", "c", "z") for b in ("d1", "z", "r1") for r in (0.0, -7, 60)], v(I(9, "int16"), I(9, "int16", 2), 3), v(I(9, "int64"), S("d0", 9)))
add("scale", *[v(S(s, n), a, lo, hi, N) for n in (8, 13, 33) for s in ("r0", "d0", "v0", "z") for a in (1, 0.5, 2.2, F(1, 2), F(0.5, 1.3, 3), V(2, 1)) for lo, hi, N in ((0.1, 0.4, 6), (0.05, 0.45, 9))])
for op in ("anaask", "anabpsk", "anaqpsk", "anafsk"):
    add(op, *[v(n, c) for n in (5, 16, 64, 257) for c in (1, 2, 7)], v(33, 4, 2))
for op in ("noisecu", "noisecg"):
    add(op, *[v(n) for n in (1, 2, 3, 16, 33, 64, 257)])
add("dopnoise", *[v(n, 200.0, 60.0, d, w, t) for n in (2, 9, 64) for d in (10.0, 1) for w in (70.0, 0) for t in (0, 5.5)])

OPS = [Op(n, BY[n].fn, vs, rng=BY[n].rng) for n, vs in EXTRA.items()]
KEYS = [(o.name, i) for o in OPS for i in range(len(o.variants))]
BYX = {o.name: o for o in OPS}
