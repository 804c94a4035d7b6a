"""Genus statistics."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import fftconvolve, convolve2d
import astropy.units as u
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import Genus
from turbustat.statistics.genus.genus import model_gaussian_genus

RULE = "the curve takes at least two values"


def count(mask, min_size, conn):
    """Connected regions of at least min_size pixels, by flood fill"""
    mask = mask.copy()
    ny, nx = mask.shape
    steps = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    if conn == 2:
        steps += [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    n = 0
    for i, j in zip(*np.nonzero(mask)):
        if not mask[i, j]:
            continue
        mask[i, j] = False
        stack, size = [(i, j)], 0
        while stack:
            y, x = stack.pop()
            size += 1
            for dy, dx in steps:
                p, q = y + dy, x + dx
                if 0 <= p < ny and 0 <= q < nx and mask[p, q]:
                    mask[p, q] = False
                    stack.append((p, q))
        n += size >= min_size
    return n


def gauss(width, shape=None):
    if shape is None:
        n = int(np.ceil(8 * width))
        n += (n % 2 == 0)
        shape = (n, n)
    y, x = [np.arange(n) - n // 2 for n in shape]
    k = np.exp(-(y[:, None] ** 2 + x[None, :] ** 2) / (2. * width ** 2))
    return k / k.sum()


def smooth(a, k):
    """Zeros beyond the edges; missing pixels interpolated"""
    good = np.isfinite(a)
    x = np.where(good, a, 0.)
    py, px = k.shape[0] // 2, k.shape[1] // 2
    w = np.pad(good.astype(float), ((py, py), (px, px)), constant_values=1.)
    x = np.pad(x, ((py, py), (px, px)))
    return convolve2d(x, k, mode="valid") / convolve2d(w, k, mode="valid")


imgs = gen.fields(gen.shapes2(8, 20), nan=(0, 0, 0.05),
                  kinds=["noise", "lognormal", "powerlaw", "blobs", "ints",
                         "gradient"])


@facet(st.fixed_dictionaries(dict(
    f=imgs, odd=st.booleans(), match=st.booleans(),
    radii=st.sampled_from([None, "off", [1.3], [1.1, 2.2], [1., 2.4, 3.1]]),
    runit=st.sampled_from(["none", "list", "pix", "deg", "pc"]),
    thr=st.sampled_from(["default", "percent", "values", "custom"]),
    n=st.integers(3, 9), lo=st.sampled_from([3., 20., 40.5]),
    hi=st.sampled_from([60., 81.5, 97.]),
    small=st.sampled_from(["off", "int", "int", "area", "parea", "beam"]),
    size=st.sampled_from([1, 2, 4, 7, 15]), conn=st.sampled_from([1, 2]),
    beam=st.sampled_from([1.3, 1.9, 2.7]), ecc=st.sampled_from([1., 1.5]),
    unit=st.sampled_from([None, None, "K"]))), quick=200, thorough=6000,
    rule="regions above minus regions below each threshold, by flood fill")
def curve(c):
    d = dict(c["f"])
    if c["match"]:
        d["shape"] = [n + (n % 2 == 0) for n in d["shape"]]
    a = gen.build(d)
    keep = a.copy()
    hdr = gen.header2(a.shape)
    hdr["BMAJ"], hdr["BMIN"], hdr["BPA"] = \
        c["beam"] * c["ecc"] * 0.01, c["beam"] * 0.01, 20.
    kw = dict(distance=100 * u.pc)
    half = 0.5 * min(a.shape)
    radii = c["radii"]
    if radii == "off":
        kw["enable_smoothing"] = False
        rad = [None]
    elif radii is None:
        rad = [1.]
    else:
        rad = [r for r in radii if r < half - 0.05]
        if c["runit"] in ("none", "list"):
            kw["smoothing_radii"] = rad if c["runit"] == "list" \
                else np.array(rad)
        else:
            r = np.array(rad)
            if c["runit"] != "pix":
                r = r + 1e-6
                rad = list(r)
            kw["smoothing_radii"] = {
                "pix": lambda v: v * u.pix, "deg": lambda v: v * 0.01 * u.deg,
                "pc": lambda v: v * np.deg2rad(0.01) * 100 * u.pc,
            }[c["runit"]](r)
    q = u.Unit(c["unit"]) if c["unit"] else 1
    mK = 1000. * u.mK if c["unit"] else 1.
    n = c["n"]
    lo, hi = np.nanmin(a), np.nanmax(a)
    if c["thr"] == "percent":
        kw.update(lowdens_percent=c["lo"], highdens_percent=c["hi"])
        lo, hi = np.nanpercentile(a, c["lo"]), np.nanpercentile(a, c["hi"])
    elif c["thr"] == "values":
        lo, hi = np.nanpercentile(a, [c["lo"], c["hi"]])
        kw.update(min_value=lo * mK, max_value=hi * mK)
    thr = np.linspace(lo, hi, n)
    if c["thr"] == "custom":
        thr = np.nanpercentile(a, np.linspace(5, 95, n)) + 1e-5 * (hi - lo)
        kw["thresholds"] = thr * mK
    else:
        kw["numpts"] = n
    g = Genus((a * q if c["unit"] else a, hdr), **kw)
    got_thr = g.thresholds
    if c["unit"]:
        require(got_thr.unit == u.K, "threshold unit")
        got_thr = got_thr.value
    close(got_thr, thr, "thresholds", rtol=1e-9,
          scale=np.nanmax(np.abs(a)) + 1e-30)
    rk = dict(connectivity=c["conn"], match_kernel=c["match"],
              keep_smoothed_images=True)
    size = c["size"]
    if c["small"] == "off":
        rk["enable_small_removal"] = False
        size = 1
    elif c["small"] == "int":
        rk["min_size"] = size
    elif c["small"] == "area":
        rk["min_size"] = (size + 0.4) * 0.01 ** 2 * u.deg ** 2
    elif c["small"] == "parea":
        rk["min_size"] = (size + 0.4) * (np.deg2rad(0.01) * 100) ** 2 \
            * u.pc ** 2
    else:
        rk["use_beam"] = True
        size = int(2 * np.pi * c["beam"] ** 2 * c["ecc"] / (8 * np.log(2)))
    g.make_genus_curve(**rk)
    close(a, keep, "input image", rtol=0)
    require(g.genus_stats.shape == (len(rad), n), "one curve per radius")
    m = 0
    sc = np.nanmax(np.abs(a))
    for j, r in enumerate(rad):
        if r is None:
            s = a
        else:
            s = smooth(a, gauss(r, a.shape if c["match"] else None))
        close(g.smoothed_images[j], s, "smoothed image", rtol=1e-8,
              scale=sc)
        close(g.smoothed_means[j], np.nanmean(s), "mean", rtol=1e-8,
              scale=sc)
        close(g.smoothed_stds[j], np.nanstd(s), "standard deviation",
              rtol=1e-7, scale=sc)
        img = s if r is None else np.asarray(
            getattr(g.smoothed_images[j], "value", g.smoothed_images[j]))
        for i, t in enumerate(got_thr):
            want = count(img > t, size, c["conn"]) \
                - count(img < t, size, c["conn"])
            require(g.genus_stats[j, i] == want,
                    "genus %r, expected %r at threshold %r, radius %r" % (
                        g.genus_stats[j, i], want, t, r))
            m += want != 0
    tabs = g.make_genus_stats_table()
    require(len(tabs) == len(rad), "one table per radius")
    for j, t in enumerate(tabs):
        close(t["genus_value"], g.genus_stats[j], "table", rtol=0)
        close(np.array(t["thresholds"]), got_thr, "table", rtol=1e-12)
        close(np.array(t["data_mean"])[0], gen._arr(g.smoothed_means[j]),
              "table", rtol=1e-12)
        close(np.array(t["data_std"])[0], gen._arr(g.smoothed_stds[j]),
              "table", rtol=1e-12)
    return m >= 2


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(8, 26), nan=(0, 0.05),
                 kinds=["noise", "lognormal", "powerlaw", "blobs"]),
    a=st.sampled_from([0.01, 0.5, 20.]), b=st.sampled_from([-5., 0., 3.]),
    conn=st.sampled_from([1, 2]), size=st.sampled_from([1, 3, 6]))),
    quick=100, thorough=3000,
    rule="sign change, flips, transposes, brightness scale and offset, "
         "monotonic brightness changes without smoothing")
def symmetries(c):
    a = gen.build(c["f"])

    def G(img, thr, sm=True):
        g = Genus(np.ascontiguousarray(img), thresholds=thr,
                  enable_smoothing=sm)
        g.run(connectivity=c["conn"], min_size=c["size"])
        return g.genus_stats[0], g.smoothed_means[0], g.smoothed_stds[0]

    sm = smooth(a, gauss(1.))
    thr = np.nanpercentile(sm, [5, 20, 41, 62, 83, 97])
    thr = thr + 0.0137 * np.nanstd(sm)
    if np.abs(sm[:, :, None] - thr).min() < 1e-9 * np.nanmax(np.abs(a)):
        return False
    g = G(a, thr)[0]
    close(G(-a, -thr)[0], -g, "negated image", rtol=0)
    for b, what in ((a[::-1], "flip"), (a[:, ::-1], "flip"),
                    (a.T, "transpose"), (a[::-1, ::-1], "half turn")):
        close(G(b, thr)[0], g, what, rtol=0)
    close(G(a * c["a"], thr * c["a"])[0], g, "brightness scale", rtol=0)
    close(G(a, thr[::-1].copy())[0], g[::-1], "order of thresholds", rtol=0)
    h = G(a, thr, sm=False)[0]
    lo = np.nanmin(a) - 1
    close(G(np.log(a - lo), np.log(np.maximum(thr - lo, 1e-9)), sm=False)[0],
          h, "logarithm of the image", rtol=0)
    close(G(a + c["b"], thr + c["b"], sm=False)[0], h, "offset", rtol=0)
    # everything below the minimum, or above the maximum: one region
    if not np.isnan(a).any():
        e = G(a, np.array([np.nanmin(a) - 1, np.nanmax(a) + 1]), sm=False)[0]
        close(e, [1, -1], "thresholds beyond the data", rtol=0)
    return len(set(g)) > 1


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(8, 20), seed=gen.SEED)), quick=20, thorough=300,
    rule="radii below a pixel or above half the image, wrong units")
def refusals(c):
    shape = tuple(c["shape"])
    a = np.random.RandomState(c["seed"] % 2 ** 32).rand(*shape)
    hdr = gen.header2(shape)
    half = min(shape) / 2.
    Genus((a, hdr), smoothing_radii=np.array([1., half]))
    for bad in (0.9, half + 0.2):
        raises(ValueError, lambda: Genus(
            (a, hdr), smoothing_radii=np.array([1.5, bad])), "radius")
        raises(ValueError, lambda: Genus(
            (a, hdr), smoothing_radii=np.array([1.5, bad]) * 0.01 * u.deg),
            "radius")
    k = (a * u.K, hdr)
    raises(TypeError, lambda: Genus(k, min_value=0.1), "unitless minimum")
    raises(TypeError, lambda: Genus(k, max_value=0.9), "unitless maximum")
    raises(TypeError, lambda: Genus(k, thresholds=np.array([0.1, .9])),
           "unitless thresholds")
    raises(u.UnitsError, lambda: Genus(k, min_value=0.1 * u.m), "minimum")
    raises(u.UnitsError, lambda: Genus(k, max_value=0.1 * u.m), "maximum")
    raises(u.UnitsError, lambda: Genus(k, thresholds=[0.1, .9] * u.m),
           "thresholds")
    g = Genus((a, hdr))
    g.run()
    raises(ValueError, lambda: g.smoothed_images, "images that are not kept")
    return True


@facet(st.fixed_dictionaries(dict(
    mask=st.lists(st.integers(0, 2 ** 9 - 1), min_size=3, max_size=9),
    size=st.integers(1, 8), conn=st.sampled_from([1, 2]))),
    quick=300, thorough=10000,
    rule="genus of small binary images against flood fill")
def binary_images(c):
    m = np.array([[(v >> i) & 1 for i in range(9)] for v in c["mask"]],
                 dtype=float)
    g = Genus(m, thresholds=np.array([0.5]), enable_smoothing=False)
    g.run(min_size=c["size"], connectivity=c["conn"])
    want = count(m > .5, c["size"], c["conn"]) - count(
        m < .5, c["size"], c["conn"])
    require(g.genus_stats[0, 0] == want, "genus %r, expected %r" % (
        g.genus_stats[0, 0], want))
    return 0 < m.sum() < m.size


@facet(st.fixed_dictionaries(dict(
    x=st.lists(st.integers(-400, 400).map(lambda v: v / 100.), min_size=1,
               max_size=12),
    A=st.integers(1, 10000), th=st.integers(5, 200).map(lambda v: v / 10.))),
    quick=40, thorough=400,
    rule="the curve of a Gaussian field: odd, its maximum at one standard "
         "deviation, proportional to the number of coherence areas")
def gaussian_model(c):
    x = np.array(c["x"])
    keep = x.copy()
    y = model_gaussian_genus(x, c["A"], c["th"])
    close(x, keep, "thresholds", rtol=0)
    want = [c["A"] / c["th"] ** 2 * v / np.sqrt(2 * np.pi) ** 3 *
            np.exp(-0.5 * v * v) for v in x]
    close(y, want, "analytic curve", rtol=1e-9)
    close(model_gaussian_genus(-x, c["A"], c["th"]), -y, "odd curve",
          rtol=1e-9)
    return bool(np.any(x != 0))
