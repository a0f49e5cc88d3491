"""C06: a representation object gives the same results whatever was done with it before."""
import copy
import itertools

import matplotlib.pyplot as plt
import numpy as np
from tftb.processing import (BertrandDistribution, DFlandrinDistribution, Scalogram, ShortTimeFourierTransform,
                             UnterbergerDistribution)
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram,
                                   WignerVilleDistribution, PageRepresentation, PseudoPageRepresentation,
                                   PseudoMargenauHillDistribution)

from mc.core import Space, Violation
from mc.props.c27 import Watch, agree, drawn
from mc.signals import sig, window

CLS = {c.__name__: c for c in (ShortTimeFourierTransform, Spectrogram, WignerVilleDistribution, PseudoWignerVilleDistribution,
                               MargenauHillDistribution, BertrandDistribution, DFlandrinDistribution, UnterbergerDistribution,
                               Scalogram, PageRepresentation, PseudoPageRepresentation, PseudoMargenauHillDistribution)}
AFF = ("BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution", "Scalogram")


def configs(name):
    if name in AFF:
        base = [dict(x="r0", n=16, fmin=0.15, fmax=0.4, n_voices=6), dict(x="b:13,31", n=17, fmin=0.2, fmax=0.4, n_voices=5),
                dict(x="r0", n=16, fmin=0.15, fmax=0.4, n_voices=8, ts=[0, 16, 2])]
        if name == "UnterbergerDistribution":
            base.append(dict(x="r0", n=16, fmin=0.15, fmax=0.4, n_voices=6, form="P"))
        if name == "Scalogram":
            base += [dict(x="r0", n=16, fmin=0.15, fmax=0.4, n_voices=6, waveparams=0), dict(x="b:13,31", n=32)]
        return base
    base = [dict(x="d0", n=8), dict(x="r0", n=9), dict(x="d1", n=8, n_fbins=12), dict(x="d0", n=7, n_fbins=9)]
    if name in ("ShortTimeFourierTransform", "Spectrogram", "PseudoWignerVilleDistribution", "PseudoPageRepresentation",
                "PseudoMargenauHillDistribution"):
        base.append(dict(x="d0", n=8, fwindow="hm5"))
    if name in ("Spectrogram", "MargenauHillDistribution", "PageRepresentation", "PseudoPageRepresentation", "PseudoMargenauHillDistribution"):
        base.append(dict(x="d0", n=8, ts=[0, 8, 2]))
    if name in ("ShortTimeFourierTransform", "WignerVilleDistribution"):
        base.append(dict(x="d0", n=8, ts=[5, 13, 1]))
    return base


def make(name, cfg):
    k = dict(cfg)
    s = np.array(sig(k.pop("x"), k.pop("n")))
    if "ts" in k:
        k["timestamps"] = np.arange(*k.pop("ts"))
    if "fwindow" in k:
        k["fwindow"] = window(k["fwindow"])
    return s, CLS[name](s, **k)


SHORT = dict(ShortTimeFourierTransform="stft", Spectrogram="spec", WignerVilleDistribution="wvd", PseudoWignerVilleDistribution="pwvd",
             MargenauHillDistribution="mh", PageRepresentation="page", PseudoPageRepresentation="ppage", PseudoMargenauHillDistribution="pmh")
PLOTS = {"cmap": dict(kind="cmap", show_tf=False), "contour": dict(kind="contour", show_tf=False),
         "tf": dict(kind="cmap", show_tf=True), "ctf": dict(kind="contour", show_tf=True), "plain": {},
         "half": dict(kind="cmap", show_tf=False, threshold=0.5), "chalf": dict(kind="contour", show_tf=False, threshold=0.5),
         "all": dict(kind="cmap", show_tf=False, threshold=0.0), "bare": dict(kind="cmap", show_tf=False, default_annotation=False),
         "jet": dict(kind="cmap", show_tf=False, cmap="jet"), "levels": dict(kind="contour", show_tf=False, levels=[0.1, 0.2, 0.7]),
         "extent": dict(kind="cmap", show_tf=False, extent=[1, 4, 0.1, 0.3]), "own": dict(kind="cmap", show_tf=False)}


def picture(w):
    """Everything visible on the figures: images, curves, contour data, titles, labels, limits."""
    out = []
    for num in plt.get_fignums():
        for ax in plt.figure(num).axes:
            out.append([ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), list(ax.get_xlim()), list(ax.get_ylim()),
                        [(np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan), list(i.get_extent()), i.get_cmap().name, i.origin) for i in ax.images],
                        [np.array([ln.get_xdata(), ln.get_ydata()], dtype=float) for ln in ax.get_lines()]])
    out.append([[X, Y, Z, np.asarray(lev if lev is not None else 0)] for _, (X, Y, Z), lev in w.contours])
    return out


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12 * (np.abs(b).max() if b.size else 0), equal_nan=True)


def show(obj, op):
    kw = dict(PLOTS[op])
    with Watch() as w:
        if op == "own":
            kw["ax"] = plt.subplots(1, 2)[1][1]
        obj.plot(show=False, **kw)
        return picture(w), (w.contours[0][1][2] if w.contours else None)


def pictured(ctx, name, cfg, op):
    """What this plot of an object that has only been run looks like; its data are those of the model."""
    _, o = make(name, cfg)
    v, t, f = [np.array(q) for q in o.run()[:3]]
    pic, z = show(o, op)
    img, cut, _ = drawn(SHORT.get(name, "aff"), v, f, PLOTS[op].get("threshold"), None)
    if z is None:
        z = [i[0] for ax in pic[:-1] for i in ax[5]][0]
    agree(ctx, z, img, cut, "plot %s of a new %s" % (op, name))
    return pic


def equal(a, b):
    return len(a) == len(b) and all(np.asarray(x).shape == np.asarray(y).shape and np.allclose(x, y, rtol=1e-10, atol=1e-300)
                                    for x, y in zip(a, b))


class Model(object):
    """What the object must look like: nothing, until it has run; then the results, for ever."""

    def __init__(self, ctx, name, cfg):
        self.ctx, self.name, self.cfg, self.pics = ctx, name, cfg, {}
        _, o = make(name, cfg)
        self.ref = [np.array(v, copy=True) for v in ctx.call(o.run)]
        self.sig, self.obj = make(name, cfg)
        self.sig0 = self.sig.copy()
        self.returned = []        # (arrays handed out, what they must contain)
        self.ran = False

    compare = False

    def step(self, op):
        ctx, obj = self.ctx, self.obj
        if op == "run":
            r = ctx.call(obj.run)
            if not equal(r, self.ref):
                raise Violation("%s.run() differs from that of an untouched object" % self.name)
            self.returned.append((r, [np.array(v, copy=True) for v in r]))
            self.ran = True
        elif op == "copy":
            self.obj = obj = copy.deepcopy(obj)
        elif op == "scribble":
            # the caller reuses the arrays it was given
            for r, c in self.returned:
                r[0][...] = 7
                c[0][...] = 7
            self.ran = False      # what a plot would show now is up to the caller
        else:
            mine = [np.array(v, copy=True) for v in (obj.tfr, obj.ts, obj.freqs)]
            before = self.ran
            try:
                ctx.transitions += 1
                pic = show(obj, op)[0]
            except Exception as e:
                if before:
                    raise Violation("plot %s of a %s that has run: %s: %s" % (op, self.name, type(e).__name__, e))
            finally:
                plt.close("all")
            if before and self.compare:
                if op not in self.pics:
                    self.pics[op] = pictured(ctx, self.name, self.cfg, op)
                ctx.compared += 1
                if not alike(pic, self.pics[op]):
                    raise Violation("plot %s of a %s looks different from that of a new one" % (op, self.name))
            if not equal(mine, (obj.tfr, obj.ts, obj.freqs)):
                raise Violation("plot %s changed the results held by a %s" % (op, self.name))
        self.invariant(op)

    def invariant(self, op):
        ctx = self.ctx
        ctx.compared += 1
        if not np.array_equal(self.sig, self.sig0):
            raise Violation("%s changed the signal" % op)
        for r, c in self.returned:
            if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(r, c)):
                raise Violation("%s changed arrays returned earlier by %s.run()" % (op, self.name))
        if self.ran and not equal((self.obj.tfr, self.obj.ts, self.obj.freqs), self.ref[:3]):
            raise Violation("after %s the %s does not hold its results" % (op, self.name))


def single(ctx, name, cfg, ops):
    m = Model(ctx, name, cfg)
    for op in ops:
        m.step(op)
    ctx.see(m.obj.tfr)


def looks(ctx, name, cfg, ops):
    """Plots of one object, after each other: each looks as if it were the first."""
    m = Model(ctx, name, cfg)
    m.compare = True
    for op in ops:
        m.step(op)
    ctx.see(m.obj.tfr)


def double(ctx, a, ca, b, cb, ops):
    m = [Model(ctx, a, ca), Model(ctx, b, cb)]
    for op in ops:
        i = int(op[0])
        m[i].step(op[1:])
        m[1 - i].invariant("the other object's " + op[1:])
    ctx.see(m[0].obj.tfr, m[1].obj.tfr)


def soil(ctx, a, ca, b, cb, when):
    """The owner of one object overwrites everything it holds; objects made before and after know nothing of it."""
    m = Model(ctx, b, cb)
    _, o = make(a, ca)
    if "r" in when:
        m.step("run")
    if "o" in when:
        ctx.call(o.run)
    for name in ("fwindow", "ts", "freqs", "tfr", "signal"):
        v = getattr(o, name, None)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 3
    if "p" in when:
        m.step("cmap")
    m.step("run")
    _, n = make(b, cb)
    r = ctx.call(n.run)
    if not equal(r, m.ref):
        raise Violation("a %s made after another object was overwritten differs" % b)
    ctx.see(r[0])


def spaces(tier):
    deep = tier == "thorough"
    sp = []
    ops = ["run", "cmap", "ctf", "tf", "contour", "scribble", "copy"]
    seqs = list(itertools.product(ops, repeat=3))
    light = ["run", "cmap", "scribble", "copy"]
    d = 5 if deep else 4
    for name in CLS:
        cf = configs(name)
        sp.append(Space(name, [dict(name=name, cfg=c, ops=s) for i, c in enumerate(cf) for s in seqs
                               if deep or i == 0 or "run" in s[:2] and s[2] == "run" and s[0] != "copy"] +
                        [dict(name=name, cfg=cf[0], ops=s) for s in itertools.product(light, repeat=d)], single,
                        "all sequences of three operations on one object; of %d light ones" % d))
    pl = ["plain", "cmap", "contour", "tf", "ctf", "half", "chalf", "all", "bare", "jet", "levels", "extent", "own"]
    sp.append(Space("looks", [dict(name=c, cfg=configs(c)[0], ops=["run", a, b] + (["run", a] if a in ("half", "levels", "jet", "bare") else [])) for c in CLS
                              for a in pl for b in pl] +
                    [dict(name=c, cfg=cf, ops=["run", a, "run", b]) for c in CLS for cf in configs(c)[1:3 if not deep else None] for a in ("half", "levels", "jet", "tf", "chalf")
                     for b in ("plain", "cmap", "ctf")] +
                    [dict(name=c, cfg=configs(c)[0], ops=["run", a, "copy", b]) for c in CLS for a in ("half", "levels", "jet", "extent") for b in ("plain", "contour")] +
                    ([dict(name=c, cfg=configs(c)[0], ops=["run", a, b, d]) for c in CLS for a in pl for b in pl for d in pl[:6]] if deep else []), looks,
                    "all pairs of plots with different options"))
    sp.append(Space("overwritten", [dict(a=a, ca=ca, b=a, cb=cb, when=w) for a in CLS for ca in configs(a) for cb in configs(a) for w in ("", "r", "o", "ro", "rop")
                                    if deep or ca == cb or w in ("", "ro")] +
                    [dict(a=a, ca=configs(a)[0], b=b, cb=configs(b)[0], when=w) for a in CLS for b in CLS if a != b for w in ("", "o", "ro")], soil,
                    "objects made before and after another one is overwritten"))
    two = ["0run", "1run", "0cmap", "1scribble"]
    sp.append(Space("two-objects", [dict(a=a, ca=configs(a)[0], b=a, cb=cb, ops=s) for a in CLS for cb in configs(a)[:3]
                                    for s in itertools.product(two, repeat=4 if deep else 3)] +
                    [dict(a=a, ca=configs(a)[0], b=b, cb=configs(b)[0], ops=s) for a in CLS for b in CLS if a != b
                     for s in itertools.product(["0run", "1run"], repeat=3)], double,
                    "two objects, operations interleaved in every order"))
    return sp
