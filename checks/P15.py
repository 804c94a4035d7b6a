"""Wavelet transform."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import convolve2d
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import Wavelet
from turbustat.statistics.lm_seg import Lm_Seg

RULE = "the transform has at least two finite values that differ"


def ricker(a):
    n = int(np.ceil(8 * a))
    n += (n % 2 == 0)
    g = np.arange(n) - n // 2
    q = (g[:, None] ** 2 + g[None, :] ** 2) / (2. * a ** 2)
    return (1 - q) * np.exp(-q) / (np.pi * a ** 4)


def model(img, a, norm=True, wrap=False):
    """(mean of the positive coefficients, error, coefficients, ambiguous)"""
    k = ricker(a)
    x = np.where(np.isnan(img), 0., img)
    if wrap:
        m = k.shape[0] // 2
        x = convolve2d(np.pad(x, m, mode="wrap"), k, mode="valid")
    else:
        x = convolve2d(x, k, mode="same")
    x = x * a ** (2 if norm else 4)
    pos = x[x > 0]
    amb = np.abs(x).min() < 1e-9 * np.abs(x).max() or \
        np.abs(x).max() < 1e-11 * a ** (-2 if norm else 0) * \
        np.nanmax(np.abs(img))
    if not pos.size:
        return np.nan, np.nan, x, amb
    area = int(np.ceil(0.5 * np.pi * np.log(2) * a ** 2))
    return pos.mean(), pos.std() / np.sqrt(x.size // area), x, amb


imgs = gen.fields(gen.shapes2(10, 30), nan=(0, 0, 0.05),
                  kinds=["noise", "lognormal", "powerlaw", "blobs", "spike",
                         "gradient", "ints"])
scaleset = st.lists(st.integers(10, 90), min_size=2, max_size=4,
                    unique=True).map(lambda v: [x / 10. + 0.03 for x in v])


def quant(v, unit):
    kw = {}
    v = np.asarray(v, dtype=float)
    if unit == "pix":
        q = v * u.pix
    elif unit == "deg":
        q = v * 0.01 * u.deg
    elif unit == "arcsec":
        q = v * 36. * u.arcsec
    else:
        q = v * np.deg2rad(0.01) * 50 * u.pc
        kw["distance"] = 50 * u.pc
    return q, kw


@facet(st.fixed_dictionaries(dict(
    f=imgs, scales=scaleset, norm=st.sampled_from([True, True, False]),
    wrap=st.booleans(), keep=st.booleans(), pyfftw=st.booleans(),
    unit=st.sampled_from(["pix", "deg", "arcsec", "pc"]),
    setter=st.booleans())), quick=200, thorough=6000,
    rule="mean and scatter of the positive coefficients, by direct "
         "convolution with the wavelet")
def transform(c):
    a = gen.build(c["f"])
    keep = a.copy()
    half = min(a.shape) // 2
    sc = [v for v in c["scales"] if v <= half and (
        not c["wrap"] or 8 * v + 2 <= min(a.shape))]
    if not sc:
        return False
    q, kw = quant(sc, c["unit"])
    hdr = gen.header2(a.shape)
    if c["setter"]:
        s = Wavelet(a, header=hdr, num=5, **kw)
        s.scales = q
    else:
        s = Wavelet(a, header=hdr, scales=q, **kw)
    ck = {"boundary": "wrap"} if c["wrap"] else {}
    args = dict(scale_normalization=c["norm"], convolve_kwargs=ck,
                use_pyfftw=c["pyfftw"], show_progress=False)
    s.compute_transform(keep_convolved_arrays=c["keep"], **args)
    close(a, keep, "input image", rtol=0)
    require(len(s.values) == len(sc) == len(s.stddev), "one value per scale")
    n = 0
    for i, v in enumerate(sc):
        val, err, coef, amb = model(a, v, c["norm"], c["wrap"])
        if c["keep"]:
            close(s.Wf[i], coef, "coefficients at scale %r" % v, rtol=1e-8,
                  atol=1e-12 * v ** (-2 if c["norm"] else 0)
                  * np.nanmax(np.abs(a)))
        if amb:
            continue
        close(s.values[i], val, "transform at scale %r" % v, rtol=1e-7)
        close(s.stddev[i], err, "error at scale %r" % v, rtol=1e-6)
        n += 1
    if not c["keep"]:
        require(s.Wf is None, "coefficients kept without being asked for")
    return n >= 2


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(10, 26), nan=(0, 0.05),
                 kinds=["noise", "lognormal", "powerlaw", "blobs"]),
    c=st.sampled_from([1e-4, 0.2, 9., 1e5]), num=st.integers(3, 8),
    shift=st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list))),
    quick=80, thorough=2500,
    rule="reflections, transposes, scaling, cyclic shifts with wrapping, "
         "independence of the other scales, default scales")
def symmetries(c):
    a = gen.build(c["f"])
    hdr = gen.header2(a.shape)

    def tr(img, scales=None, **kw):
        img = np.ascontiguousarray(img)
        k = dict(scales=scales) if scales is not None else dict(num=c["num"])
        s = Wavelet(img, header=gen.header2(img.shape), **k)
        s.compute_transform(show_progress=False, **kw)
        return s

    s = tr(a)
    L = s.scales.to(u.pix).value
    n = c["num"]
    close(L, 1.667 * (min(a.shape) / 2. / 1.667) ** (
        np.arange(n) / (n - 1.)), "default scales", rtol=1e-9)
    if any(model(a, v)[3] for v in L):
        return False
    for b, what in ((a[::-1], "up-down flip"), (a[:, ::-1], "flip"),
                    (a.T, "transpose")):
        t = tr(b)
        close(t.values, s.values, what, rtol=1e-7)
        close(t.stddev, s.stddev, what, rtol=1e-6)
    t = tr(a * c["c"])
    close(t.values, s.values * c["c"], "scaled image", rtol=1e-7)
    close(t.stddev, s.stddev * c["c"], "scaled image", rtol=1e-6)
    t = tr(a, s.scales[::-1])
    close(t.values, s.values[::-1], "reversed scales", rtol=1e-9)
    t = tr(a, s.scales[1:2])
    close(t.values, s.values[1:2], "one scale alone", rtol=1e-9)
    small = np.array([1.1, 1.4]) * u.pix
    if 8 * 1.4 + 2 <= min(a.shape):
        kw = dict(convolve_kwargs={"boundary": "wrap"})
        close(tr(np.roll(a, c["shift"], axis=(0, 1)), small, **kw).values,
              tr(a, small, **kw).values, "cyclic shift", rtol=1e-7)
    u2 = tr(a, scale_normalization=False)
    close(u2.values, s.values * L ** 2, "normalisation", rtol=1e-9)
    return np.ptp(s.values) > 1e-6 * s.values.max()


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(24, 48), nan=(0,),
                 kinds=["noise", "lognormal", "powerlaw"],
                 offsets=(0.,)),
    num=st.integers(8, 30), lo=st.sampled_from([None, 2.13, 2.77]),
    hi=st.sampled_from([None, 5.21, 7.37]),
    brk=st.sampled_from([None, None, 3.3, 4.1]), weighted=st.booleans(),
    unit=st.sampled_from(["pix", "deg", "arcsec", "pc"]),
    bunit=st.sampled_from(["pix", "deg"]), run=st.booleans(),
    exact=st.booleans(), minpts=st.sampled_from([3, 5]))), quick=150, thorough=4000,
    rule="(weighted) least squares of the logged transform between the "
         "limits; breaks from the segmented fit")
def fits(c):
    a = gen.build(c["f"])
    _, dk = quant([1.], c["unit"])
    s = Wavelet(a, header=gen.header2(a.shape), num=c["num"], **dk)
    kw, L = {}, s.scales.to(u.pix).value
    keep = np.ones(L.size, bool)
    c = dict(c)
    if c["exact"] and c["unit"] == "pix" and s.scales.unit == u.pix:
        # limits on one of the scales, which then is part of the fit
        for k in ("lo", "hi"):
            if c[k] is not None:
                c[k] = float(L[np.argmin(np.abs(L - c[k]))])
    for name, v, op in (("xlow", c["lo"], np.greater_equal),
                        ("xhigh", c["hi"], np.less_equal)):
        if v is not None:
            if not (L == v).any() and np.abs(L - v).min() < 1e-6:
                return False
            kw[name] = quant([v], c["unit"])[0][0]
            keep &= op(L, v)
    if keep.sum() < 4:
        return False
    x = np.log10(L[keep])
    brk = c["brk"]
    if brk is not None:
        if not x[1] < np.log10(brk) < x[-2]:
            return False
        kw["brk"] = quant([brk], c["bunit"])[0][0]
    fk = dict(weighted_fit=c["weighted"], min_fits_pts=c["minpts"])
    s.compute_transform(show_progress=False)
    if not (np.isfinite(s.values) & np.isfinite(s.stddev)
            & (s.stddev > 0)).all():
        return False
    if c["run"]:
        s.run(show_progress=False, fit_kwargs=fk, **kw)
    else:
        s.fit_transform(**dict(kw, **fk))
    y = np.log10(s.values)[keep]
    w = None
    if c["weighted"]:
        w = (0.434 * s.stddev / s.values)[keep] ** -2
    lims = [gen.to_pix(v, dist=50) for v in s.fit_range]
    want = [c["lo"] or L.min() * 0.99, c["hi"] or L.max() * 1.01]
    close(lims, want, "fit range", rtol=1e-8)
    xs = np.linspace(x.min(), x.max(), 7)[[3, 0, 6, 1, 5, 4, 2]]
    if brk is not None:
        r = Lm_Seg(x, y, np.log10(brk), weights=w)
        r.fit_model(verbose=False, cov_type="HC3")
        if not r.break_fail_flag and abs((x - r.brk)).min() < 1e-5:
            return False
        if not r.break_fail_flag and (x < r.brk).sum() >= c["minpts"]:
            require(s.brk is not None, "break dropped")
            require(s.brk.unit == u.pix and s.brk_err.unit == u.pix,
                    "break in %s" % s.brk.unit)
            close(s.brk.value, 10 ** r.brk, "break", rtol=1e-5)
            close(s.brk_err.value, np.log(10) * 10 ** r.brk * r.brk_err,
                  "break error", rtol=1e-3)
            close(s.slope, r.slopes, "slopes", rtol=1e-5,
                  scale=np.abs(r.slopes).max() + .1)
            close(s.slope_err, r.slope_errs, "slope errors", rtol=1e-3)
            close(s.fitted_model(xs), r.model(xs), "model", rtol=1e-5,
                  scale=1.)
            return "break"
    require(s.brk is None and s.brk_err is None, "unexpected break")
    b, e = ref.ols(x, y, w)
    close(s.slope, b[1], "slope", rtol=1e-7, scale=abs(b[1]) + .1)
    if ref.leverage(x, w) < 1 - 1e-4:
        close(s.slope_err, e[1], "slope error", rtol=1e-4, scale=e[1],
              atol=1e-6)
    close(s.fitted_model(xs), b[0] + b[1] * xs, "model", rtol=1e-7,
          scale=np.abs(b).max() + 1)
    if brk is None and not c["weighted"]:
        s.fit_transform(bootstrap=True, bootstrap_kwargs=dict(
            nboot=12, seed=3), **kw)
        close(s.slope, b[1], "slope with bootstrapped errors", rtol=1e-9,
              scale=abs(b[1]) + .1)
        e1 = float(s.slope_err)
        require(e1 > 0, "bootstrapped error %r" % e1)
        s.fit_transform(bootstrap=True, bootstrap_kwargs=dict(
            nboot=12, seed=3), **kw)
        require(float(s.slope_err) == e1, "bootstrap not reproducible")
    return True


@facet(st.fixed_dictionaries(dict(shape=gen.shapes2(8, 24),
                                  seed=gen.SEED)), quick=25, thorough=400,
       rule="scales below a pixel, above half the map, without units, and "
            "breaks outside the fit are refused")
def refusals(c):
    shape = tuple(c["shape"])
    a = np.random.RandomState(c["seed"] % 2 ** 32).rand(*shape)
    hdr = gen.header2(shape)
    half = min(shape) // 2
    Wavelet(a, header=hdr, scales=[1., half] * u.pix)
    raises(TypeError, lambda: Wavelet(a, header=hdr, scales=[2., 3.]),
           "scales without units")
    for sc, what in (([0.9, 2.], "below a pixel"),
                     ([2., half + 1.5], "above half of the map")):
        raises(ValueError, lambda: Wavelet(a, header=hdr,
                                           scales=sc * u.pix), what)
        raises(ValueError, lambda: Wavelet(
            a, header=hdr, scales=np.array(sc) * 0.01 * u.deg), what)
        s = Wavelet(a, header=hdr, num=5)
        old = s.scales.copy()
        raises(ValueError, lambda: setattr(s, "scales", sc * u.pix), what)
        close(s.scales, old, "scales after a refused change", rtol=0)
    raises(Exception, lambda: Wavelet(a, header=hdr, scales=[2., 3.] * u.pc),
           "physical scales without a distance")
    s.compute_transform(show_progress=False)
    raises(ValueError, lambda: s.fit_transform(brk=30 * u.pix),
           "break outside the fit range")
    raises(ValueError, lambda: s.fit_transform(xlow=2 * u.pix,
                                               brk=1.8 * u.pix),
           "break outside the fit range")
    return True
