"""Local statistical moments."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import StatMoments

NAMES = ["mean", "variance", "skewness", "kurtosis"]
imgs = gen.fields(gen.shapes2(8, 15), nan=(0, 0, 0.05, 0.2),
                  kinds=["noise", "lognormal", "powerlaw", "blobs", "spike"])


def moments(x, w):
    """Weighted mean, variance, skewness and excess kurtosis"""
    ok = np.isfinite(x) & np.isfinite(w)
    x, w = x[ok], w[ok]
    if not x.size:
        return [np.nan] * 4
    w = w / w.sum()
    m = (w * x).sum()
    v = (w * (x - m) ** 2).sum()
    s = np.sqrt(v)
    return [m, v, (w * (x - m) ** 3).sum() / s ** 3,
            (w * (x - m) ** 4).sum() / s ** 4 - 3.]


def local(a, w, r, periodic, frac):
    """Maps of the moments; NaN plane where the two readings of the minimum
    fraction (circle, or the square around it) differ"""
    ny, nx = a.shape
    out = np.full((4, ny, nx), np.nan)
    unsure = np.zeros(a.shape, dtype=bool)
    d = np.arange(-r, r + 1)
    dy, dx = np.meshgrid(d, d, indexing="ij")
    circ = dy ** 2 + dx ** 2 < r ** 2
    for y in range(ny):
        for x in range(nx):
            yy, xx = y + dy, x + dx
            if periodic:
                p, q = a[yy % ny, xx % nx], w[yy % ny, xx % nx]
            else:
                p = np.full(yy.shape, np.nan)
                q = np.full(yy.shape, np.nan)
                i = (yy >= 0) & (yy < ny) & (xx >= 0) & (xx < nx)
                p[i], q[i] = a[yy[i], xx[i]], w[yy[i], xx[i]]

            def enough(m):
                return min(np.isfinite(p[m]).mean(),
                           np.isfinite(q[m]).mean()) >= frac

            sq = enough(np.ones_like(circ))
            unsure[y, x] = sq != enough(circ)
            if sq:
                out[:, y, x] = moments(p[circ], q[circ])
    return out, unsure


def quant(v, unit):
    if unit == "pix":
        return v * u.pix, {}
    if unit == "deg":
        return v * 0.01 * u.deg, {}
    return v * np.deg2rad(0.01) * 50 * u.pc, dict(distance=50 * u.pc)


@facet(st.fixed_dictionaries(dict(
    f=imgs, r=st.integers(2, 5), extra=st.sampled_from([0., 0., 0.4, 0.9]),
    unit=st.sampled_from(["pix", "deg", "pc"]), periodic=st.booleans(),
    frac=st.sampled_from([None, 0.3, 0.8, 0.95, 1.]),
    w=st.sampled_from([None, "good", "nan"]), seed=gen.SEED,
    nbins=st.one_of(st.none(), st.integers(3, 20)),
    how=st.sampled_from(["init", "compute", "run"]))), quick=180,
    thorough=6000,
    rule="weighted moments in every circular region from the definition; "
         "histograms normalised to unit area")
def maps(c):
    a = gen.build(c["f"])
    keep = a.copy()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    r = min(c["r"], min(a.shape) // 2)
    rad = r + c["extra"]
    if rad > min(a.shape) / 2.:
        rad = float(r)
    w = np.ones(a.shape)
    kw = {}
    if c["w"]:
        w = 0.2 + rng.rand(*a.shape)
        if c["w"] == "nan":
            w[rng.rand(*a.shape) < 0.06] = np.nan
        kw["weights"] = w.copy()
    q, dk = quant(rad, c["unit"])
    frac = 0.8 if c["frac"] is None else c["frac"]
    ck = dict(periodic=c["periodic"], show_progress=False)
    if c["frac"] is not None:
        ck["min_frac"] = frac
    hdr = gen.header2(a.shape)
    if c["how"] == "init":
        s = StatMoments(a, header=hdr, radius=q, nbins=c["nbins"],
                        **dict(kw, **dk))
    else:
        s = StatMoments(a, header=hdr, radius=2 * u.pix, nbins=c["nbins"],
                        **dict(kw, **dk))
        ck["radius"] = q
    want, unsure = local(a, w, r, c["periodic"], frac)
    if np.isfinite(want[0]).sum() < 4:
        return False
    if c["how"] == "run":
        s.run(**ck)
    else:
        s.compute_spatial_distrib(**ck)
        s.array_moments()
        s.make_spatial_histograms()
    close(a, keep, "input", rtol=0)
    if c["w"]:
        close(kw["weights"], w, "input weights", rtol=0)
    tot = moments(a.ravel(), w.ravel())
    for k, name in enumerate(NAMES):
        close(getattr(s, name), tot[k], name + " of the image", rtol=1e-7,
              atol=1e-9 * np.nanmax(np.abs(a)) ** min(k + 1, 2)
              if k < 2 else 1e-8)
    ok = ~unsure
    flat = want[1] < 1e-9 * np.nanmax(want[1])
    for k, name in enumerate(NAMES):
        arr = getattr(s, name + "_array")
        m = ok & ~flat if k > 1 else ok
        close(arr[m], want[k][m], name + " map", rtol=1e-6,
              atol=0 if k < 2 else 1e-7)
        good = arr[np.isfinite(arr)]
        close(getattr(s, name + "_extrema"), [good.min(), good.max()],
              name + " extrema", rtol=0)
        nb = c["nbins"] or int(np.sqrt(a.size))
        edges = np.linspace(good.min(), good.max(), nb + 1)
        if np.ptp(good) < 1e-9 * np.abs(good).max():
            continue
        cen, h = getattr(s, name + "_hist")
        close(cen, 0.5 * (edges[1:] + edges[:-1]), name + " bins",
              rtol=1e-7, scale=np.abs(edges).max())
        close(h.sum() * (edges[1] - edges[0]), 1., name + " area",
              rtol=1e-6)
        if (np.abs(np.subtract.outer(good, edges[1:-1])) < 1e-9
                * np.ptp(good)).any():
            continue
        n = np.array([((good >= lo) & (good < hi)).sum() for lo, hi in
                      zip(edges[:-1], edges[1:])], dtype=float)
        n[-1] += (good == edges[-1]).sum()
        close(h, n / n.sum() / (edges[1] - edges[0]), name + " histogram",
              rtol=1e-6)
    # bins given as an array
    e = np.linspace(*(list(s.mean_extrema) + [6]))
    if np.ptp(e) > 1e-9 * np.abs(e).max():
        s2 = StatMoments(a, header=hdr, radius=2 * u.pix, nbins=e)
        s2.compute_spatial_distrib(**dict(ck, radius=q if c["unit"] != "pc"
                                          else rad * u.pix))
        own1 = {n + "_bins": np.linspace(*(list(getattr(
            s2, n + "_extrema")) + [4])) for n in NAMES[1:]}
        if all(np.ptp(v) > 0 for v in own1.values()):
            s2.make_spatial_histograms(**own1)
            close(s2.mean_hist[0], 0.5 * (e[1:] + e[:-1]), "array of bins",
                  rtol=1e-9, scale=np.abs(e).max())
    own = [np.linspace(*(list(getattr(s, n + "_extrema")) + [7]))
           for n in NAMES]
    if all(np.ptp(o) > 1e-9 * np.abs(o).max() for o in own):
        s.make_spatial_histograms(**{n + "_bins": o
                                     for n, o in zip(NAMES, own)})
        for n, o in zip(NAMES, own):
            close(getattr(s, n + "_hist")[0], 0.5 * (o[1:] + o[:-1]),
                  "given bins", rtol=1e-9, scale=np.abs(o).max())
            close((getattr(s, n + "_hist")[1] * np.diff(o)).sum(), 1.,
                  "area in given bins", rtol=1e-7)
        # bins given for one of the maps do not affect the others
        for n, o in zip(NAMES, own):
            s.make_spatial_histograms(**{n + "_bins": o[1:]})
            for n2 in NAMES:
                size = 5 if n2 == n else c["nbins"] or int(np.sqrt(a.size))
                require(len(getattr(s, n2 + "_hist")[0]) == size,
                        "%d bins of the %s with bins for the %s" % (
                            len(getattr(s, n2 + "_hist")[0]), n2, n))
                v = getattr(s, n2 + "_array")
                if n2 != n:
                    lo, hi = np.nanmin(v), np.nanmax(v)
                    e = np.linspace(lo, hi, size + 1)
                    close(getattr(s, n2 + "_hist")[0],
                          0.5 * (e[1:] + e[:-1]), "bins of the %s" % n2,
                          rtol=1e-7, scale=np.abs(e).max())
    return ok.sum() > 4


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(8, 14), nan=(0, 0.05),
                 kinds=["noise", "lognormal", "powerlaw"]),
    c=st.sampled_from([0.01, 7., -3.]), b=st.sampled_from([-1., 2.]),
    periodic=st.booleans(), r=st.integers(2, 4),
    shift=st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list))),
    quick=80, thorough=3000,
    rule="flips, transposes, scaling, offsets, shifts and uniform weights "
         "act on the maps as they should")
def symmetries(c):
    a = gen.build(c["f"])

    def run(img, **kw):
        img = np.ascontiguousarray(img)
        s = StatMoments(img, header=gen.header2(img.shape),
                        radius=c["r"] * u.pix, **kw)
        s.compute_spatial_distrib(periodic=c["periodic"],
                                  show_progress=False)
        return [getattr(s, n + "_array") for n in NAMES]

    m = run(a)
    if not np.isfinite(m[0]).any():
        return False
    for k, v in enumerate(run(a[:, ::-1])):
        close(v, m[k][:, ::-1], "flipped " + NAMES[k], rtol=1e-6)
    for k, v in enumerate(run(a.T)):
        close(v, m[k].T, "transposed " + NAMES[k], rtol=1e-6)
    f = c["c"]
    for k, v in enumerate(run(f * a)):
        close(v, m[k] * [f, f * f, np.sign(f), 1.][k],
              "scaled " + NAMES[k], rtol=1e-6)
    b = c["b"] * c["f"]["scale"]
    for k, v in enumerate(run(a + b)):
        close(v, m[k] + (b if k == 0 else 0), "offset " + NAMES[k],
              rtol=1e-6)
    for k, v in enumerate(run(a, weights=np.full(a.shape, 3.7))):
        close(v, m[k], "uniform weights: " + NAMES[k], rtol=1e-8)
    if c["periodic"]:
        for k, v in enumerate(run(np.roll(a, c["shift"], axis=(0, 1)))):
            close(v, np.roll(m[k], c["shift"], axis=(0, 1)),
                  "shifted " + NAMES[k], rtol=1e-8)
    return True


@facet(st.fixed_dictionaries(dict(shape=gen.shapes2(8, 20),
                                  seed=gen.SEED)), quick=30, thorough=600,
       rule="radii below two pixels, above half the image, without unit; "
            "fractions outside (0, 1]")
def refusals(c):
    a = np.random.RandomState(c["seed"] % 2 ** 32).rand(*c["shape"])
    hdr = gen.header2(a.shape)
    half = min(a.shape) / 2.
    for bad in (1.5 * u.pix, (half + 0.5) * u.pix, 0.015 * u.deg,
                (half + 0.5) * 0.01 * u.deg):
        raises(ValueError, lambda: StatMoments(a, header=hdr, radius=bad),
               "radius %s" % bad)
        s = StatMoments(a, header=hdr, radius=2 * u.pix)
        raises(ValueError, lambda: s.compute_spatial_distrib(
            radius=bad, show_progress=False), "radius %s" % bad)
    raises(TypeError, lambda: StatMoments(a, header=hdr, radius=3),
           "radius without unit")
    for f in (0., -0.2, 1.2):
        raises(ValueError, lambda: s.compute_spatial_distrib(
            min_frac=f, show_progress=False), "fraction %s" % f)
    return True
