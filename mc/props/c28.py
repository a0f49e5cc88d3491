"""C28: results depend on the values of the arguments, not on how the arrays and numbers are represented."""
import numpy as np
from tftb import processing as p
from tftb.processing import ambiguity, linear
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram,
                                   WignerVilleDistribution, PageRepresentation, PseudoPageRepresentation,
                                   PseudoMargenauHillDistribution)

from mc import catalog as c, catalog2
from mc.core import Space, floor_of
from mc.signals import sig, window

every = lambda x, s: tuple(slice(None, None, s) for _ in x.shape)  # noqa: E731


class Sub(np.ndarray):
    pass


def layout(x, how):
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "reversed":        # negative strides
        return x[every(x, -1)].copy()[every(x, -1)]
    if how == "strided":
        y = np.full(tuple(2 * s for s in x.shape), 77, dtype=x.dtype)
        y[every(x, 2)] = x
        return y[every(x, 2)]
    if how == "column":          # a column of a wider table
        y = np.full(x.shape + (3,), -5, dtype=x.dtype)
        y[..., 1] = x
        return y[..., 1]
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "swapped":
        return x.astype(x.dtype.newbyteorder(">"))
    if how == "unaligned":
        raw = np.zeros(x.nbytes + 1, np.uint8)
        y = raw[1:].view(x.dtype).reshape(x.shape)
        y[...] = x
        return y
    if how == "subclass":
        return x.view(Sub)
    if how == "single":
        return x.astype({"f": np.float32, "c": np.complex64}.get(x.dtype.kind, x.dtype))
    if how == "long":
        return x.astype({"f": np.longdouble, "c": np.clongdouble}.get(x.dtype.kind, x.dtype))
    raise ValueError(how)


LAYOUTS = ["readonly", "reversed", "strided", "column", "fortran", "swapped", "unaligned", "subclass"]


def compare(ctx, got, ref, what, rtol):
    ctx.true(len(got) == len(ref), "%s: %d results instead of %d", what, len(got), len(ref))
    for i, (a, b) in enumerate(zip(got, ref)):
        ctx.close(a, b, "%s, result %d" % (what, i), rtol=rtol, atol=floor_of(what))


def laid(ctx, op, i, how, only=None):
    o = c.BY[op]
    ref, _ = ctx.call(c.invoke, (op, i))
    a, k = o.build(i)
    n = [0]

    def conv(v):
        if not isinstance(v, np.ndarray):
            return v
        n[0] += 1
        return layout(v, how) if only is None or only == n[0] else v
    a = [conv(v) for v in a]
    k = {q: conv(v) for q, v in k.items()}
    if o.rng:
        np.random.seed(3)
    compare(ctx, c.flat(ctx.call(o.fn, *a, **k)), ref, "%s of %s arrays" % (op, how), 2e-4 if how == "single" else 1e-9)


def values(n, dt, k, low, symmetric=False):
    """Integers over the whole range of the type (or the small ones), without symmetry."""
    if dt == "bool":
        return (np.real(sig("r%d" % k, n)) > 0).astype(float)
    ii = np.iinfo(dt)
    hi = min(ii.max, 2 ** 31 - 1) if not low else min(ii.max, 40)
    lo = max(ii.min, -2 ** 31) if not low else max(ii.min, -40)
    if symmetric:                # the absolute value exists
        lo = max(lo, -hi)
    m = (np.arange(n) * (37 + 10 * k) + 11 * k + (np.arange(n) ** 2) * 7) % 101
    v = np.round(lo + (hi - lo) * (m / 100.0))
    v[n // 3] = lo
    v[(2 * n) // 3] = hi
    return v


def integers(ctx, op, i, dt, low):
    o = c.BY[op]
    a, k = o.build(i)
    two = op == "sigmerge"
    x = [values(v.size, dt, j, low, op in TABLES).reshape(v.shape) if isinstance(v, np.ndarray) and (j == 0 or two) else v for j, v in enumerate(a)]
    ref = c.flat(ctx.call(o.fn, *[v.copy() if isinstance(v, np.ndarray) else v for v in x], **k))
    a, k = o.build(i)
    y = [v.astype(dt) if isinstance(v, np.ndarray) and (j == 0 or two) else v for j, v in enumerate(x)]
    compare(ctx, c.flat(ctx.call(o.fn, *y, **k)), ref, "%s of %s samples" % (op, dt), 1e-9)


def realcomplex(ctx, op, i):
    o = c.BY[op]
    a, k = o.build(i)
    a[0] = np.real(a[0]) + 0.0
    if op == "sigmerge":
        a[1] = np.real(a[1]) + 0.0
    ref = c.flat(ctx.call(o.fn, *[np.array(v) if isinstance(v, np.ndarray) else v for v in a], **k))
    a[0] = a[0].astype(complex)
    compare(ctx, c.flat(ctx.call(o.fn, *a, **k)), ref, "%s of a real signal in a complex array" % op, 1e-9)


def instants(ctx, op, i, dt):
    o = c.BY[op]
    ref, _ = ctx.call(c.invoke, (op, i))
    a, k = o.build(i)
    cv = lambda v: v.astype(dt) if isinstance(v, np.ndarray) and v.dtype.kind == "i" else v  # noqa: E731
    a = a[:1] + [cv(v) for v in a[1:]]
    k = {q: cv(v) for q, v in k.items()}
    compare(ctx, c.flat(ctx.call(o.fn, *a, **k)), ref, "%s at %s instants" % (op, dt), 1e-9)


ANY, EVEN = [0, 3, 20, 64, 100, 121], [7, 45, 83, 121]
LATE = {"spwvd": ANY, "spectrogram": ANY, "mh": ANY, "pmh": ANY, "page": ANY, "ppage": ANY,
        "rsp": EVEN, "rspwv": EVEN, "rpwv": ANY, "rpmh": ANY, "rppag": ANY, "inst_freq": [1, 3, 20, 64, 100, 121],
        "narrow_band": [-99, -5, 0, 3, 64, 99],
        "rmsc": EVEN, "bertrand": EVEN, "dflandrin": EVEN, "unterberger": EVEN, "scalogram": EVEN}
AFFINE = ("bertrand", "dflandrin", "unterberger", "scalogram")


def late(ctx, op, N, x, dt, n=None):
    """Instants held in a type too narrow for the length of the signal."""
    fn, t, s = c.BY[op].fn, np.array(LATE[op]), np.array(sig(x, N))
    k = {} if n is None or op == "inst_freq" else {"freq_bins" if op == "spwvd" else "n_fbins": n}
    if op in AFFINE:
        k, s = dict(fmin=0.1, fmax=0.4, n_voices=6), np.real(s) + 0.0
    name = {"inst_freq": "t", "narrow_band": "lag", "rsp": "time_samples"}.get(op, "timestamps")
    ref = c.flat(ctx.call(fn, s.copy(), **dict(k, **{name: t.copy()})))
    compare(ctx, c.flat(ctx.call(fn, s.copy(), **dict(k, **{name: t.astype(dt)}))), ref, "%s at %s instants of %d samples" % (op, dt, N), 1e-9)


def scalar(v, how):
    if isinstance(v, (bool, str)) or isinstance(v, np.ndarray):
        return v
    if how == "int64":
        return np.int64(v) if isinstance(v, int) else v
    if how == "int32":
        return np.int32(v) if isinstance(v, int) else v
    if how == "float64":
        return np.float64(v) if isinstance(v, float) else v
    if how == "whole":
        return int(v) if isinstance(v, float) and v == int(v) else v
    if how == "list":
        return list(v) if isinstance(v, tuple) else v
    if how == "array":
        return np.array(v) if isinstance(v, tuple) else v


def scalars(ctx, op, i, how):
    o = c.BY[op]
    ref, _ = ctx.call(c.invoke, (op, i))
    a, k = o.build(i)
    if o.rng:
        np.random.seed(3)
    got = c.flat(ctx.call(o.fn, *[scalar(v, how) for v in a], **{q: scalar(v, how) for q, v in k.items()}))
    compare(ctx, got, ref, "%s with %s numbers" % (op, how), 1e-9)


def wide(ctx, op, i, how):
    """The argument sets of the large catalogue in another representation."""
    o = catalog2.BYX[op]

    def call(a, k):
        if o.rng:
            np.random.seed(3)
        return c.flat(ctx.call(o.fn, *a, **k))
    a, k = o.build(i)
    try:
        if o.rng:
            np.random.seed(3)
        ref = c.flat(o.fn(*a, **k))
    except Exception:
        return ctx.skip()        # refused
    a, k = o.build(i)
    if how in ("int64", "int32", "float64", "whole", "list", "array"):
        conv = lambda v: scalar(v, how)  # noqa: E731
    elif how == "double":
        conv = lambda v: v.astype(float) if isinstance(v, np.ndarray) and v.dtype.kind in "iu" else v  # noqa: E731
        a[1:], k = list(a[1:]), dict(k)
        a[0] = conv(a[0])
        return compare(ctx, call(a, k), ref, "%s of integer samples" % op, 1e-9)
    else:
        conv = lambda v: layout(v, how) if isinstance(v, np.ndarray) else v  # noqa: E731
    compare(ctx, call([conv(v) for v in a], {q: conv(v) for q, v in k.items()}), ref, "%s, %s" % (op, how), 1e-9)


RUN = {"stft": c.run(linear.ShortTimeFourierTransform), "spectrogram": c.run(Spectrogram), "wvd": c.run(WignerVilleDistribution),
       "pwvd": c.run(PseudoWignerVilleDistribution), "mh": c.run(MargenauHillDistribution),
       "page": c.run(PageRepresentation), "ppage": c.run(PseudoPageRepresentation), "pmh": c.run(PseudoMargenauHillDistribution),
       "bertrand": lambda x: p.BertrandDistribution(x, fmin=0.15, fmax=0.4, n_voices=6).run(),
       "dflandrin": lambda x: p.DFlandrinDistribution(x, fmin=0.15, fmax=0.4, n_voices=6).run(),
       "unterberger": lambda x: p.UnterbergerDistribution(x, fmin=0.15, fmax=0.4, n_voices=6).run(),
       "scalogram": lambda x: p.Scalogram(x, fmin=0.15, fmax=0.4, n_voices=6).run(),
       "loctime": p.loctime, "locfreq": p.locfreq, "inst_freq": p.inst_freq, "group_delay": p.group_delay,
       "wide_band": lambda x: ambiguity.wide_band(x, 0.1, 0.4, 6)}


def shapes(ctx, op, N, spec, shape, how):
    x = np.array(sig(spec, N))
    ref = c.flat(ctx.call(RUN[op], x.copy()))
    y = x.reshape((N, 1) if shape == "column" else (1, N))
    y = y if how is None else layout(y, how)
    compare(ctx, c.flat(ctx.call(RUN[op], y)), ref, "%s of a %s" % (op, shape), 1e-9)
    ctx.true(y.shape == ((N, 1) if shape == "column" else (1, N)), "the caller's array changed shape")


WINS = {"stft": ("fwindow", c.BY["stft"].fn), "spectrogram": ("fwindow", c.BY["spectrogram"].fn), "pwvd": ("fwindow", c.BY["pwvd"].fn),
        "ppage": ("fwindow", c.BY["ppage"].fn), "pmh": ("fwindow", c.BY["pmh"].fn),
        "spwvd-f": ("fwindow", c.BY["spwvd"].fn), "spwvd-t": ("twindow", c.BY["spwvd"].fn), "rsp": ("window", c.BY["rsp"].fn),
        "rpwv": ("fwindow", c.BY["rpwv"].fn), "rpmh": ("fwindow", c.BY["rpmh"].fn), "rppag": ("fwindow", c.BY["rppag"].fn),
        "rspwv-f": ("fwindow", c.BY["rspwv"].fn), "rspwv-t": ("twindow", c.BY["rspwv"].fn)}


def windows(ctx, op, N, L, dt, kind):
    """Integer windows and integer signals together."""
    name, fn = WINS[op]
    h = np.ones(L) if kind == "flat" else np.minimum(np.arange(L), np.arange(L)[::-1]) + 1.0
    x = values(N, "int16", 1, False)
    ref = c.flat(ctx.call(fn, x.copy(), **{name: h.copy()}))
    for s in (float, "int16"):
        compare(ctx, c.flat(ctx.call(fn, x.astype(s), **{name: h.astype(dt)})), ref, "%s with a %s window" % (op, dt), 1e-9)


def linearity(ctx, vals, dt):
    from tftb.utils import is_linear
    want = len(set(np.diff(np.array(vals, float)).tolist())) == 1
    ctx.true(bool(ctx.call(is_linear, np.array(vals, dtype=dt))) == want, "is_linear(%s as %s) should be %s", vals, dt, want)


TABLES = ("hough", "renyi", "friedman", "ridges", "integrate_2d", "izak")


def spaces(tier):
    import itertools
    keys = c.KEYS
    arr = [k for k in keys if any(isinstance(v, c.Arr) for v in list(c.BY[k[0]].variants[k[1]][0]) + list(c.BY[k[0]].variants[k[1]][1].values()))]
    sigs = [k for k in arr if k[0] in c.BY and not c.BY[k[0]].rng and c.BY[k[0]].variants[k[1]][0] and
            isinstance(c.BY[k[0]].variants[k[1]][0][0], c.Arr) and k[0] not in ("atoms", "fmodany", "ideal_tfr", "nearest_odd", "modulo", "is_linear", "derive_window")]
    only = [k for k in sigs if k[0] not in TABLES]
    inst = [k for k in arr if any(isinstance(v, c.Arr) and v.make().dtype.kind == "i" for v in
                                  list(c.BY[k[0]].variants[k[1]][0][1:]) + list(c.BY[k[0]].variants[k[1]][1].values()))]
    J = lambda k: dict(op=k[0], i=k[1])  # noqa: E731
    dts = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "bool"]
    wk = []
    for op, i in catalog2.KEYS:
        a, k = catalog2.BYX[op].variants[i]
        arrays = [v for v in list(a) + list(k.values()) if isinstance(v, c.Arr)]
        if arrays:
            wk += [dict(op=op, i=i, how=h) for h in (("readonly", "strided", "swapped", "subclass") if op != "rmsc" else ("strided",))]
        if a and isinstance(a[0], c.Arr) and a[0].make().dtype.kind in "iu" and op not in ("modulo", "nearest_odd", "is_linear", "nextpow2", "fmodany"):
            wk.append(dict(op=op, i=i, how="double"))
        if not arrays or len(arrays) < len(a) + len(k):
            wk += [dict(op=op, i=i, how=h) for h in ("int64", "float64", "whole", "list", "array") if not (op == "sigmerge" and h in ("float64", "int64")) and op != "rmsc"]
    return [
        Space("wide", wk, wide, "the large catalogue of argument sets x representations of arrays and numbers"),
        Space("layouts", [dict(J(k), how=h) for k in arr for h in LAYOUTS] + [dict(J(k), how=h, only=j) for k in arr for h in ("strided", "swapped", "readonly") for j in (1, 2)],
              laid, "every operation x memory layouts of its arrays, together and one at a time"),
        Space("precision", [dict(J(k), how=h) for k in only for h in ("single", "long") if not (h == "long" and k[0] in ())], laid, "single and extended precision"),
        Space("integers", [dict(J(k), dt=d, low=b) for k in sigs + [k for k in keys if k[0] == "derive_window"] for d in dts for b in (True, False)
                           if not (k[0] in TABLES and not d.startswith("u") and d != "bool" and k[0] == "renyi")
                           and not (k[0] in ("renyi", "derive_window") and d == "bool")], integers, "integer samples over the whole range of each type"),
        Space("complex", [J(k) for k in only], realcomplex, "real signals held in complex arrays"),
        Space("instants", [dict(J(k), dt=d) for k in inst for d in ("int16", "int32", "int64")], instants, "integer types of instants and lags"),
        Space("late", [dict(op=o, N=N, x=x, dt=d, n=n) for o in LATE for N in (128, 200, 257) for x in ("d0", "d1") for d in ("int8", "int16", "int32") for n in (None, 32, 300)
                       if n is None or o not in AFFINE and (o, n) != ("narrow_band", 32)],
              late, "narrow types of instants in long signals"),
        Space("numbers", [dict(J(k), how=h) for k in keys for h in ("int64", "int32", "float64", "whole", "list", "array")
                          if not (k[0] == "sigmerge" and h == "float64")], scalars, "NumPy numbers, whole floats, tuples, lists"),
        Space("shapes", [dict(op=o, N=N, spec=s, shape=h, how=l) for o in RUN for N in (14, 15, 16, 21) for s in ("d0", "r0", "r1", "d1") for h in ("row", "column")
                         for l in (None, "fortran", "strided")], shapes, "rows and columns"),
        Space("windows", [dict(op=o, N=N, L=L, dt=d, kind=k) for o in WINS for N in (9, 12) for L in (3, 5, 7) for d in ("int8", "int16", "int64") for k in ("flat", "ramp")],
              windows, "integer windows"),
        Space("linearity", [dict(vals=list(v), dt=d) for n in (2, 3, 4) for d, alpha in (("uint8", (0, 1, 2, 64, 128, 192, 255)), ("int8", (-128, -64, 0, 1, 64, 127)),
                                                                                ("int16", (-32768, 0, 1, 32767, -1)), ("int64", (0, 1, 2, -1)))
                            for v in itertools.product(alpha, repeat=n)], linearity, "short integer arrays")]
