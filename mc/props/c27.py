"""C27: plots draw the representation that was computed, where it was asked to be drawn."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.axes import Axes  # noqa: E402
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402
from tftb.processing import (BertrandDistribution, DFlandrinDistribution, Scalogram, ShortTimeFourierTransform,  # noqa: E402
                             UnterbergerDistribution, plotifl)
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram,  # noqa: E402
                                   WignerVilleDistribution, PageRepresentation, PseudoPageRepresentation,
                                   PseudoMargenauHillDistribution)

from mc.core import Space, Violation  # noqa: E402
from mc.signals import sig  # noqa: E402

CLS = {"stft": ShortTimeFourierTransform, "spec": Spectrogram, "wvd": WignerVilleDistribution,
       "pwvd": PseudoWignerVilleDistribution, "mh": MargenauHillDistribution, "bertrand": BertrandDistribution,
       "dflandrin": DFlandrinDistribution, "unterberger": UnterbergerDistribution, "scalogram": Scalogram,
       "page": PageRepresentation, "ppage": PseudoPageRepresentation, "pmh": PseudoMargenauHillDistribution}
AFF = ("bertrand", "dflandrin", "unterberger", "scalogram")
TITLE = {"stft": "STFT", "spec": "SPECTROGRAM", "wvd": "WIGNER-VILLE", "pwvd": "PSEUDO WINGER-VILLE", "mh": "MARGENAU-HILL",
         "bertrand": "BERTRAND", "dflandrin": "D-FLANDRIN", "unterberger": "UNTERBERGER", "scalogram": "SCALOGRAM",
         "page": "PAGE REPRESENTATION", "ppage": "PSEUDO PAGE", "pmh": "PSEUDO MARGENAU-HILL"}
LIKE_MH = ("mh", "pmh", "page", "ppage")
CONTOUR_DEFAULT = AFF + ("pwvd",)


class Watch(object):
    """Records contour and surface calls and calls of show; closes all figures."""

    def __enter__(self):
        plt.close("all")
        self.contours, self.surfaces, self.shown = [], [], 0
        self.saved = [(Axes, "contour", Axes.contour), (Axes3D, "plot_surface", Axes3D.plot_surface),
                      (Axes3D, "plot_wireframe", Axes3D.plot_wireframe), (plt, "show", plt.show)]

        def contour(ax, *a, **k):
            self.contours.append((ax, [np.array(v) for v in a[:3]], a[3] if len(a) > 3 else k.get("levels")))
            return self.saved[0][2](ax, *a, **k)

        def surface(f):
            def g(ax, X, Y, Z, *a, **k):
                self.surfaces.append((ax, np.array(X), np.array(Y), np.array(Z)))
                k.pop("cmap", None)
                return f(ax, X, Y, Z, *a, **k)
            return g

        def show(*a, **k):
            self.shown += 1

        Axes.contour = contour
        Axes3D.plot_surface = surface(self.saved[1][2])
        Axes3D.plot_wireframe = surface(self.saved[2][2])
        plt.show = show
        return self

    def __exit__(self, *e):
        for o, n, f in self.saved:
            setattr(o, n, f)
        plt.close("all")


def make(kind, spec, N, n=None, ts=None, h=None):
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.arange(*ts) * (0.5 if kind in ("stft", "wvd", "pwvd") else 1)
    if kind in AFF:
        kw = dict(kw, fmin=0.15, fmax=0.4, n_voices=n or 7)
        kw.pop("n_fbins", None)
    x = np.array(sig(spec, N))
    return CLS[kind](x, **kw), x


def drawn(kind, v, f, threshold, sqmod):
    """What is to be drawn, and the frequencies of its rows."""
    v = np.array(v)
    n = v.shape[0]
    if threshold is None:
        threshold = 0.0 if kind == "spec" else 0.05
    if kind in ("stft", "spec") + LIKE_MH:
        v, f = v[:n // 2], f[:n // 2]
    if kind in ("stft",) + LIKE_MH and sqmod is not False or sqmod:
        v = np.abs(v) ** 2
    elif kind in ("stft", "wvd", "pwvd"):
        v = np.abs(v)
    cut = v.max() * threshold
    return v, cut, f


def agree(ctx, got, v, cut, what):
    """v with everything up to the cut removed; entries within rounding of the cut may fall either way."""
    got = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan)
    ctx.true(got.shape == v.shape, "%s: %s values drawn, %s computed", what, got.shape, v.shape)
    edge = np.abs(v - cut) <= 1e-9 * np.abs(v).max()
    want = np.where(v > cut, v, 0)
    ok = np.abs(got - want) <= 1e-9 * np.abs(v).max()
    ok |= edge & ((np.abs(got) <= 1e-9 * np.abs(v).max()) | (np.abs(got - v) <= 1e-9 * np.abs(v).max()))
    if not ok.all():
        ix = tuple(int(i) for i in np.argwhere(~ok)[0])
        raise Violation("%s: at %s drew %r, computed %r (cut at %r)" % (what, ix, got[ix], v[ix], cut))
    ctx.compared += 1
    ctx.see(np.round(got / (np.abs(v).max() or 1), 6))


def plot(ctx, cls, N, spec="d0", n=None, ts=None, kind=None, threshold=None, sqmod=None, show=None, own=False, annotate=None,
         show_tf=None, cmap=None, extent=None, levels=None, scale=None, coords=None, kw3=False):
    o, x = make(cls, spec, N, n, ts)
    v, t, f = [np.array(q) for q in ctx.call(o.run)[:3]]
    kw = {}
    for k, q in (("kind", kind), ("threshold", threshold), ("sqmod", sqmod), ("show", show), ("default_annotation", annotate),
                 ("show_tf", show_tf), ("cmap", cmap), ("extent", extent), ("levels", levels), ("scale", scale)):
        if q is not None:
            kw[k] = q
    marg = show_tf if show_tf is not None else cls in AFF
    style = kind or ("contour" if cls in CONTOUR_DEFAULT else "cmap")
    img, cut, fr = drawn(cls, v, f, threshold, sqmod)
    with Watch() as w:
        if own:
            fig, (ax0, ax1) = plt.subplots(2, 1)
            kw["ax"] = ax1
            other = plt.figure()
        if coords:
            kw["contour_x"], kw["contour_y"] = np.linspace(-3, 4, img.shape[1]), np.linspace(1, 2, img.shape[0]) ** 2
        ctx.call(o.plot, **kw)
        ctx.true(w.shown == (0 if show is False else 1), "plt.show called %d times with show=%s", w.shown, show)
        if own:
            ctx.true(len(plt.get_fignums()) == 2, "a new figure was opened although axes were given")
            ctx.true(not ax0.images and not ax0.collections and not other.axes, "drawn on other axes than the given ones")
            ax, axes = ax1, [ax1]
        else:
            ctx.true(len(plt.get_fignums()) == 1, "%d figures were opened", len(plt.get_fignums()))
            axes = plt.figure(plt.get_fignums()[0]).axes
            ctx.true(len(axes) == (3 if marg else 1), "%d axes drawn", len(axes))
            cand = [a for a in axes if a.images or any(c[0] is a for c in w.contours)]
            ctx.true(len(cand) == 1, "the representation is drawn %d times", len(cand))
            ax = cand[0]
        if annotate is not False:
            ctx.true(ax.get_title() == TITLE[cls], "title %r", ax.get_title())
            ctx.true(ax.get_xlabel() == "Time" and ax.get_ylabel() == "Normalized Frequency", "axis labels %r, %r",
                     ax.get_xlabel(), ax.get_ylabel())
        else:
            ctx.true(not (ax.get_title() or ax.get_xlabel() or ax.get_ylabel()), "annotated although not wanted")
        if style == "cmap":
            ctx.true(len(ax.images) == 1, "%d images", len(ax.images))
            im = ax.images[0]
            agree(ctx, im.get_array(), img, cut, "image")
            ctx.true(im.origin == "lower", "image drawn upside down")
            if extent is None:
                ext = [0, t.max(), 0, 0.5] if cls in ("mh", "pmh") else [t.min(), t.max(), fr.min(), fr.max()]
            else:
                ext = extent
            ctx.close(np.array(im.get_extent(), float), np.array(ext, float), "extent of the image", rtol=1e-9)
            ctx.true(im.get_cmap().name == (cmap or "gray"), "colour map %s", im.get_cmap().name)
        else:
            ctx.true(len(w.contours) == 1, "%d contour plots", len(w.contours))
            a, (X, Y, Z), lev = w.contours[0]
            agree(ctx, Z, img, cut, "contour data")
            cx = kw.get("contour_x", t)
            cy = kw.get("contour_y", f if cls in AFF else np.linspace(0, 0.5, img.shape[0]))
            ctx.close(np.broadcast_to(X, img.shape), np.broadcast_to(cx, img.shape), "contour time coordinates", rtol=1e-9)
            ctx.close(np.broadcast_to(np.asarray(Y).reshape(-1, 1) if np.ndim(Y) == 1 else Y, img.shape),
                      np.broadcast_to(np.asarray(cy)[:, None], img.shape), "contour frequency coordinates", rtol=1e-9)
            if levels is not None:
                ctx.same(np.asarray(lev), np.asarray(levels), "contour levels")
            elif scale == "log":
                th = 0.05 if threshold is None else threshold
                lo, hi = max(v.min(), v.max() * th), v.max()
                lev = np.asarray(lev)
                ctx.close(lev[[0, -1]], np.array([lo, hi]), "range of the contour levels", rtol=1e-9)
                ctx.true(np.ptp(np.diff(np.log(lev))) <= 1e-6 * np.log(hi / lo), "levels are not logarithmic")
        if marg:
            sides = [a for a in axes if a is not ax]
            lines = {a: [ln for ln in a.get_lines()] for a in sides}
            ctx.true(all(len(q) == 1 for q in lines.values()), "side panels do not show one curve each")
            tl = [a for a in sides if len(lines[a][0].get_ydata()) == N and
                  np.allclose(np.asarray(lines[a][0].get_ydata(), float), np.real(x), rtol=1e-9, atol=1e-12)]
            ctx.true(len(tl) == 1, "no side panel shows the real part of the signal")
            ctx.close(np.asarray(lines[tl[0]][0].get_xdata(), float), np.arange(N), "abscissae of the signal", rtol=1e-9)
            if cls not in AFF:
                sp = [a for a in sides if a is not tl[0]][0]
                ln = lines[sp][0]
                P = np.abs(np.array([np.sum(x * np.exp(-2j * np.pi * k * np.arange(N) / N)) for k in range(N)])) ** 2
                top = N // 2 - 1 if N % 2 == 0 else N // 2
                want = np.array([P[top - j] for j in range(N // 2)])
                ctx.close(np.asarray(ln.get_xdata(), float), want, "spectrum beside the representation", rtol=1e-9, scale=P.max())
                if annotate is not False:
                    y = sp.transData.transform(np.c_[ln.get_xdata(), ln.get_ydata()])[:, 1]
                    ctx.true((np.diff(y) < 0).all(), "higher frequencies of the spectrum are not higher up")
    # the object still holds what it computed
    ctx.same(o.tfr, v, "values after plotting")
    ctx.same(o.freqs, f, "frequencies after plotting")
    ctx.same(o.ts, t, "instants after plotting")
    ctx.same(o.signal, x, "signal after plotting")


def surf(ctx, cls, N, kind, spec, own, n=None, ts=None, threshold=None, coords=None):
    o, x = make(cls, spec, N, n, ts)
    v, t, f = [np.array(q) for q in ctx.call(o.run)[:3]]
    img, cut, _ = drawn(cls, v, f, threshold, None)
    cx, cy = t, f if cls in AFF else np.linspace(0, 0.5, img.shape[0])
    with Watch() as w:
        kw = dict(kind=kind, show=False)
        if cls in AFF:
            kw["show_tf"] = False
        if threshold is not None:
            kw["threshold"] = threshold
        if coords:
            cx = kw["contour_x"] = np.linspace(-3, 4, img.shape[1])
            cy = kw["contour_y"] = np.linspace(1, 2, img.shape[0]) ** 2
        if own:
            kw["ax"] = plt.figure().add_subplot(projection="3d")
        ctx.call(o.plot, **kw)
        ctx.true(len(w.surfaces) == 1 and len(plt.get_fignums()) == 1, "%d surfaces", len(w.surfaces))
        ax, X, Y, Z = w.surfaces[0]
        ctx.true(not own or ax is kw["ax"], "drawn on other axes")
        agree(ctx, Z, img, cut, "surface")
        ctx.close(np.broadcast_to(X, img.shape), np.broadcast_to(cx, img.shape), "time coordinates", rtol=1e-9)
        ctx.close(np.broadcast_to(Y, img.shape), np.broadcast_to(np.asarray(cy)[:, None], img.shape), "frequency coordinates", rtol=1e-9)
    ctx.same(o.tfr, v, "values after plotting")
    ctx.same(o.freqs, f, "frequencies after plotting")


def laws(ctx, M, cols, neg, nan, signal, offset):
    t = np.arange(M) + offset
    L = np.array([[((3 * i + 5 * c) % 11) / 22.0 - (0.2 if neg and i == M // 2 and c == cols - 1 else 0.0)
                   for c in range(max(cols, 1))] for i in range(M)])
    if neg:
        L[M // 2, -1] = -0.3
    if nan:
        L[0, 0] = np.nan
        if neg == 0:
            L[-1, -1] = np.nan
    if cols == 0:
        L = L[:, 0]
    x = np.array(sig("d0", M)) if signal else None
    keep = L.copy(), t.copy()
    with Watch() as w:
        ctx.call(plotifl, t, L, *([x] if signal else []))
        ctx.true(len(plt.get_fignums()) == 1 and w.shown == 1, "%d figures", len(plt.get_fignums()))
        axes = plt.figure(plt.get_fignums()[0]).axes
        ctx.true(len(axes) == (2 if signal else 1), "%d axes", len(axes))
        ax = axes[-1]
        lines = ax.get_lines()
        ctx.true(len(lines) == max(cols, 1), "%d curves", len(lines))
        for c, ln in enumerate(lines):
            ctx.same(np.asarray(ln.get_xdata(), float), t.astype(float), "instants of law %d" % c)
            ctx.same(np.asarray(ln.get_ydata(), float), L if cols == 0 else L[:, c], "law %d" % c)
        ctx.true((ax.get_xlabel(), ax.get_ylabel()) == ("Time", "Normalized frequency") and "frequency law" in ax.get_title(), "labels %r, %r, %r",
                 ax.get_xlabel(), ax.get_ylabel(), ax.get_title())
        ctx.close(np.array(ax.get_ylim()), np.array([-0.5, 0.5] if np.nanmin(L) < 0 else [0, 0.5]), "frequency range", rtol=1e-9)
        ctx.close(np.array(ax.get_xlim(), float), np.array([t.min(), t.max()], float), "time range", rtol=1e-9)
        if signal:
            ln, = axes[0].get_lines()
            ctx.same(np.asarray(ln.get_ydata(), float), np.real(x), "signal")
            ctx.same(np.asarray(ln.get_xdata(), float), t.astype(float), "instants of the signal")
            ctx.close(np.array(axes[0].get_xlim(), float), np.array([t.min(), t.max()], float), "time range of the signal", rtol=1e-9)
    ctx.same(L, keep[0], "laws after plotting")
    ctx.same(t, keep[1], "instants after plotting")


def spaces(tier):
    deep = tier == "thorough"
    C = []
    cohen = ("stft", "spec", "wvd", "pwvd", "mh", "page", "ppage", "pmh")
    Ns = (8, 9, 12, 13, 16) if not deep else tuple(range(6, 21)) + (32, 33)
    for c in cohen:
        for N in Ns:
            for k in (None, "cmap", "contour"):
                for m in (None, True):
                    for s in ("d0", "d1*1e-6", "r0", "t:3", "ch"):
                        C.append(dict(cls=c, N=N, spec=s, kind=k, show_tf=m, show=False))
                    for n in (N - 1, N + 1, 2 * N):
                        if not (c == "mh" and n < N):
                            C.append(dict(cls=c, N=N, n=n, kind=k, show_tf=m, show=False))
        for N in (32, 33, 64, 65, 129):
            for k in (None, "cmap", "contour"):
                for m in (None, True):
                    C.append(dict(cls=c, N=N, kind=k, show_tf=m, show=False))
                C.append(dict(cls=c, N=N, kind=k, show=False, threshold=0.37, spec="v0"))
                C.append(dict(cls=c, N=N, kind=k, show=False, own=True, n=N + 7, spec="r0"))
            C.append(dict(cls=c, N=N, n=2 * N, kind="cmap", show_tf=True, show=False, spec="ch"))
            C.append(dict(cls=c, N=N, kind="cmap", show=False, ts=[3, 3 + N, 1] if c in ("stft", "wvd", "pwvd") else [1, N, 3]))
        for N in (8, 9):
            for s in ("i0*100", "j0", "n0", "v0", "c", "a", "s", "d1*1e8", "r0*1e-9"):
                for k in ("cmap", "contour"):
                    for m in (None, True):
                        C.append(dict(cls=c, N=N, spec=s, kind=k, show_tf=m, show=False))
            for k in ("cmap", "contour"):
                for th in (0.0, 0.01, 0.05, 0.2, 0.5, 0.9, 1.0):
                    for m in (None, True):
                        C.append(dict(cls=c, N=N, kind=k, threshold=th, show_tf=m, show=False))
                for a in (True, False):
                    for sh in (None, True, False):
                        for own in (False, True):
                            C.append(dict(cls=c, N=N, kind=k, annotate=a, show=sh, own=own))
                C.append(dict(cls=c, N=N, kind=k, show=False, ts=[3, 3 + N, 1] if c in ("stft", "wvd", "pwvd") else [2, N, 1]))
                C.append(dict(cls=c, N=N, kind=k, show=False, show_tf=True, ts=[3, 3 + N, 1] if c in ("stft", "wvd", "pwvd") else [1, N, 2]))
            for m in (None, True):
                C.append(dict(cls=c, N=N, kind="cmap", cmap="viridis", show_tf=m, show=False))
                C.append(dict(cls=c, N=N, kind="cmap", extent=[1, 5, 0.1, 0.3], show_tf=m, show=False))
                C.append(dict(cls=c, N=N, kind="contour", levels=[0.1, 0.2, 0.5, 1.5], show_tf=m, show=False))
                C.append(dict(cls=c, N=N, kind="contour", coords=1, show_tf=m, show=False))
                if c in ("wvd", "pwvd", "stft") + LIKE_MH:
                    for q in (True, False):
                        C.append(dict(cls=c, N=N, kind="cmap", sqmod=q, show_tf=m, show=False))
                if c in ("wvd", "pwvd"):
                    for th in (None, 0.01, 0.3):
                        C.append(dict(cls=c, N=N, kind="contour", scale="log", threshold=th, show_tf=m, show=False))
    for c in AFF:
        for N in (16, 17, 24) if not deep else (14, 15, 16, 17, 20, 24, 25, 32):
            for k in (None, "cmap", "contour"):
                for m in (None, True, False):
                    for s in ("r0", "r1*1e-6", "d0", "r1"):
                        C.append(dict(cls=c, N=N, spec=s, kind=k, show_tf=m, show=False))
                    for n in (5, 12, N):
                        C.append(dict(cls=c, N=N, spec="r0", n=n, kind=k, show_tf=m, show=False))
                    C.append(dict(cls=c, N=N, spec="r0", kind=k, show_tf=m, show=False, ts=[0, N, 2]))
                    for th in (0.0, 0.3, 0.9):
                        C.append(dict(cls=c, N=N, spec="r0", kind=k, show_tf=m, show=False, threshold=th))
        for N in (40, 64, 65):
            for k in (None, "cmap", "contour"):
                for m in (True, False):
                    C.append(dict(cls=c, N=N, spec="b:17,38", kind=k, show_tf=m, show=False, n=N // 2))
                    C.append(dict(cls=c, N=N, spec="r1", kind=k, show_tf=m, show=False, n=40, ts=[3, N, 4]))
        for k in ("cmap", "contour"):
            for a in (True, False):
                for sh in (None, True, False):
                    for own in (False, True):
                        C.append(dict(cls=c, N=16, spec="r0", kind=k, annotate=a, show=sh, own=own, show_tf=False))
        for m in (True, False):
            C.append(dict(cls=c, N=16, spec="r0", kind="cmap", cmap="viridis", show_tf=m, show=False))
            C.append(dict(cls=c, N=16, spec="r0", kind="cmap", extent=[1, 5, 0.1, 0.3], show_tf=m, show=False))
            C.append(dict(cls=c, N=16, spec="r0", kind="contour", levels=[0.1, 0.2, 0.5, 1.5], show_tf=m, show=False))
            C.append(dict(cls=c, N=16, spec="r0", kind="contour", coords=1, show_tf=m, show=False))
    return [Space("plots", C, plot, "classes x sizes x kinds x marginals x thresholds x targets x options"),
            Space("surfaces", [dict(cls=c, N=N, kind=k, spec=s, own=o) for c in ("wvd", "pwvd") for N in (5, 8, 9) for k in ("surf", "wireframe")
                               for s in ("d0", "r0") for o in (False, True)] +
                  [dict(cls=c, N=N, kind=k, spec=s, own=o, n=n, ts=ts, threshold=th, coords=q) for c in cohen + tuple(AFF)
                   for N in ((8, 9, 12) if c not in AFF else (16, 17)) for k in ("surf", "wireframe") for s in ("r0", "d0") for o in (False, True)
                   for n, ts, th, q in ((None, None, None, 0), (N + 4, None, 0.3, 0), (None, [1, N, 2] if c not in ("stft", "wvd", "pwvd") else [3, 3 + N, 1], 0.0, 0),
                                        (2 * N, None, None, 1))], surf, "surfaces and wire frames"),
            Space("laws", [dict(M=M, cols=c, neg=n, nan=q, signal=s, offset=o) for M in (4, 5, 9) for c in (0, 1, 2, 3) for n in (0, 1)
                           for q in (0, 1) for s in (0, 1) for o in (0, 3)], laws, "frequency laws")]
