"""Delta-variance."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import fftconvolve
import astropy.units as u
from vlib.core import facet, Violation
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import DeltaVariance
from turbustat.statistics.lm_seg import Lm_Seg

RULE = "the curve has at least two finite points that differ"


def kernels(lag, ratio):
    """Normalised core and annulus of the difference-of-Gaussians filter."""
    s = lag / (2 * np.sqrt(2))
    n = int(np.ceil(8 * s))
    n += (n % 2 == 0)
    g = np.arange(n) - n // 2
    r2 = g[:, None] ** 2 + g[None, :] ** 2
    core = np.exp(-r2 / (2 * s ** 2))
    ann = np.exp(-r2 / (2 * (ratio * s) ** 2)) - core
    return core / core.sum(), ann / ann.sum()


def conv(a, k, boundary, nan):
    """Direct convolution; kernel no larger than the image when wrapping"""
    m = k.shape[0] // 2
    good = np.isfinite(a)
    x = np.where(good, a, 0.)
    w = good.astype(float)
    if k.shape[0] > 40 or a.shape[0] > 40:
        if boundary == "wrap":
            # any centred window of the periodic image
            x, w = np.pad(x, m, mode="wrap"), np.pad(w, m, mode="wrap")
            out = fftconvolve(x, k, mode="valid")
            wt = fftconvolve(w, k, mode="valid")
        else:
            out = fftconvolve(np.pad(x, m), k, mode="valid")
            wt = fftconvolve(np.pad(w, m), k, mode="valid")
        if nan == "interpolate":
            with np.errstate(all="ignore"):
                out = out / wt
        return out
    out, wt = np.zeros_like(x), np.zeros_like(x)
    if boundary == "fill":
        x, w = np.pad(x, m), np.pad(w, m)
    for i in range(-m, m + 1):
        for j in range(-m, m + 1):
            kv = k[i + m, j + m]
            if boundary == "wrap":
                out += kv * np.roll(x, (i, j), axis=(0, 1))
                wt += kv * np.roll(w, (i, j), axis=(0, 1))
            else:
                sl = (slice(m - i, m - i + a.shape[0]),
                      slice(m - j, m - j + a.shape[1]))
                out += kv * x[sl]
                wt += kv * w[sl]
    if nan == "interpolate":
        with np.errstate(all="ignore"):
            out = out / wt
    return out


def model(a, wts, lag, ratio, boundary, nan, frac, preserve):
    core, ann = kernels(lag, ratio)
    if boundary == "fill":
        p = int(lag)
        a, w = np.pad(a, p), np.pad(wts, p)
    else:
        w = wts
    img = a * w
    ic, ia = conv(img, core, boundary, nan), conv(img, ann, boundary, nan)
    wc, wa = conv(w, core, boundary, nan), conv(w, ann, boundary, nan)
    cut = frac * wts.max()
    amb = min(np.abs(wc - cut).min(), np.abs(wa - cut).min()) \
        < 1e-7 * wts.max()
    wc = np.where(wc <= cut, np.nan, wc)
    wa = np.where(wa <= cut, np.nan, wa)
    c = ic / wc - ia / wa
    if preserve:
        c = np.where(np.isnan(img), np.nan, c)
    cw = wc * wa
    d = c - np.nanmean(c)
    val = np.nansum(d ** 2 * cw) / np.nansum(cw)
    area = int(np.ceil(0.5 * np.pi * np.log(2) * lag ** 2))
    nind = np.sqrt(np.isfinite(d).sum() // area)
    with np.errstate(all="ignore"):
        err = np.sqrt(np.nansum(d ** 4 * cw) / np.nansum(cw)
                      - val ** 2) / nind
    return val, err, amb, np.nanmax(np.abs(c)) if np.isfinite(c).any() else 0


imgs = gen.fields(gen.shapes2(12, 22), nan=(0, 0, 0.04),
                  kinds=["noise", "lognormal", "powerlaw", "blobs", "spike",
                         "gradient", "ints"])
lagset = st.lists(st.integers(11, 60), min_size=2, max_size=3,
                  unique=True).map(lambda v: sorted(x / 10. + 0.03 for x in v))


def measure(c):
    a = gen.build(c["f"])
    keep = a.copy()
    half = min(a.shape) / 2.
    fit = min(a.shape) / np.sqrt(8) - 1.    # kernel fits inside the image
    lags = np.array([v for v in c["lags"] if v <= half and (
        c["boundary"] == "fill" or v <= fit)])
    if lags.size == 0:
        return False
    rng = np.random.RandomState(c["f"]["seed"] % 1000)
    w = None
    if c["weights"]:
        w = 0.2 + rng.rand(*a.shape)
        if c["weights"] == "hole":
            w[:4, :5] = 0.
    kw = {}
    if c["unit"] == "pix":
        q = lags * u.pix
    elif c["unit"] == "none":
        q = lags.copy()
    elif c["unit"] == "deg":
        q = lags * 0.01 * u.deg
    else:
        q = lags * np.deg2rad(0.01) * 50 * u.pc
        kw["distance"] = 50 * u.pc
    args = dict(header=gen.header2(a.shape), diam_ratio=c["ratio"],
                weights=None if w is None else w.copy(), **kw)
    if c["setter"] and c["unit"] != "none":
        s = DeltaVariance(a, **args)
        s.lags = q
    else:
        s = DeltaVariance(a, lags=q, **args)
    s.compute_deltavar(boundary=c["boundary"], nan_treatment=c["nan"],
                       preserve_nan=c["preserve"],
                       min_weight_frac=c["frac"], use_pyfftw=c["pyfftw"],
                       show_progress=False, keep_convolve_arrays=True)
    close(a, keep, "input image", rtol=0)
    require(len(s.convolve_arrays) == len(lags)
            and len(s.convolve_weights) == len(lags), "convolved arrays")
    wts = np.isfinite(a).astype(float) if w is None else w
    n = 0
    for i, lag in enumerate(lags):
        with np.errstate(all="ignore"):
            val, err, amb, sc = model(a, wts, lag, c["ratio"], c["boundary"],
                                      c["nan"], c["frac"], c["preserve"])
        if amb:
            continue
        g, ge = s.delta_var[i], s.delta_var_error[i]
        if not np.isfinite(val) or val <= 1e-12 * sc ** 2:
            require(np.isnan(g) or g <= 1e-9 * sc ** 2 + 1e-25,
                    "delta-variance %r from an undefined map" % g)
            continue
        if np.isnan(err) or err <= 1e-9 * val:
            continue
        close(g, val, "delta-variance at lag %g" % lag, rtol=1e-6)
        close(ge, err, "error at lag %g" % lag, rtol=1e-5)
        n += 1
    return n >= 1


options = dict(
    ratio=st.sampled_from([1.5, 1.3, 2., 3.]),
    weights=st.sampled_from([None, None, "rand", "hole"]),
    boundary=st.sampled_from(["wrap", "fill"]),
    nan=st.sampled_from(["fill", "fill", "interpolate"]),
    preserve=st.booleans(), frac=st.sampled_from([0.01, 0.2, 0.5]),
    unit=st.sampled_from(["pix", "none", "deg", "pc"]),
    setter=st.booleans(), pyfftw=st.booleans())


@facet(st.fixed_dictionaries(dict(options, f=imgs, lags=lagset)), quick=150,
       thorough=5000,
       rule="weighted variance of the filtered map, by direct convolution")
def curve(c):
    return measure(c)


big = gen.fields(gen.shapes2(40, 76), nan=(0, 0, 0.04),
                 kinds=["noise", "lognormal", "powerlaw", "blobs"])
biglags = st.lists(st.integers(60, 380), min_size=1, max_size=2,
                   unique=True).map(
                       lambda v: sorted(x / 10. + 0.03 for x in v))


@facet(st.fixed_dictionaries(dict(options, f=big, lags=biglags)), quick=40,
       thorough=1500,
       rule="the same on larger images, with lags up to half their size")
def large(c):
    return measure(c)


@facet(st.fixed_dictionaries(dict(f=imgs, seed=gen.SEED,
                                  wt=st.booleans())), quick=80,
       thorough=2500, rule="shifts, reflections, transposes, offsets, scaling "
                           "of image and weights")
def symmetries(c):
    a = gen.build(dict(c["f"]))
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    lags = np.array([2., 3.]) * u.pix
    w = 0.3 + rng.rand(*a.shape) if c["wt"] else None

    def run(x, wt=None, **kw):
        s = DeltaVariance(x, header=gen.header2(x.shape), lags=lags,
                          weights=wt)
        s.compute_deltavar(show_progress=False, **kw)
        return s.delta_var, s.delta_var_error
    v0, e0 = run(a, w)
    if not np.isfinite(v0).all() or (e0 <= 1e-6 * v0).any():
        return False
    if v0.min() < 1e-9 * np.nanmax(np.abs(a)) ** 2:
        return False

    def same(r, k, what):
        close(r[0], v0 * k, what, rtol=1e-6)
        close(r[1], e0 * k, what + " (error)", rtol=1e-5)

    def both(fn):
        return run(np.ascontiguousarray(fn(a)),
                   None if w is None else np.ascontiguousarray(fn(w)))
    sh = (int(rng.randint(20)), int(rng.randint(20)))
    same(both(lambda x: np.roll(x, sh, axis=(0, 1))), 1, "periodic shift")
    same(both(lambda x: x[::-1]), 1, "reflection")
    same(both(lambda x: x.T), 1, "transpose")
    same(run(-3. * a, w), 9., "scaled image")
    if w is not None:
        same(run(a, 5. * w), 1, "scaled weights")
    else:
        same(run(a, np.isfinite(a) * 2.), 1, "uniform weights")
    if np.isfinite(a).all():
        same(run(a + 2. * np.abs(a).max(), w), 1, "constant offset")
    f0 = run(a, w, boundary="fill")
    s2 = DeltaVariance(np.ascontiguousarray(a[:, ::-1]),
                       header=gen.header2(a.shape), lags=lags,
                       weights=None if w is None else
                       np.ascontiguousarray(w[:, ::-1]))
    s2.compute_deltavar(boundary="fill", show_progress=False)
    close(s2.delta_var, f0[0], "reflection without wrapping", rtol=1e-6)
    return True


@facet(st.fixed_dictionaries(dict(
    n=st.integers(20, 40), p=st.integers(-30, 30), seed=gen.SEED,
    nl=st.integers(6, 20), lo=st.sampled_from([None, 3.7, 4.4]),
    hi=st.sampled_from([None, 7.3, 9.1]), brk=st.booleans(),
    noise=st.sampled_from([0, 0.05]), unit=st.sampled_from(["pix", "deg"]),
    exact=st.booleans())), quick=120, thorough=4000,
    rule="weighted least squares of the logged curve between the limits; "
         "breaks from the segmented fit")
def fits(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = rng.normal(size=(c["n"], c["n"]))
    s = DeltaVariance(a, header=gen.header2(a.shape), nlags=c["nl"])
    L = s.lags.to(u.pix).value
    close(L, 3. * (c["n"] / 6.) ** (np.arange(c["nl"]) / (c["nl"] - 1.)),
          "default lags", rtol=1e-9)
    # a prescribed curve in place of the measured one
    y = 0.3 + c["p"] / 10. * np.log10(L)
    if c["brk"]:
        y = y + 1.5 * np.maximum(np.log10(L) - np.log10(5.5), 0)
    y = y + c["noise"] * rng.normal(size=y.size)
    err = (0.02 + 0.1 * rng.rand(y.size)) * 10 ** y
    if c["nl"] > 12 and not c["brk"]:
        y[rng.randint(y.size)] = np.nan
    s.compute_deltavar(show_progress=False)
    s._delta_var, s._delta_var_error = 10 ** y, err
    # without a way to prescribe the curve, fit the measured one
    y, err = np.log10(s.delta_var), s.delta_var_error
    conv_ = {"pix": lambda v: v * u.pix,
             "deg": lambda v: v * 0.01 * u.deg}[c["unit"]]
    kw, keep = {}, np.ones(L.size, bool)
    c = dict(c)
    if c["exact"] and c["unit"] == "pix" and s.lags.unit == u.pix:
        # limits on one of the lags, which then is part of the fit
        for k in ("lo", "hi"):
            if c[k] is not None:
                c[k] = float(L[np.argmin(np.abs(L - c[k]))])
    for name, v, op in (("xlow", c["lo"], np.greater_equal),
                        ("xhigh", c["hi"], np.less_equal)):
        if v is not None:
            if not (L == v).any() and np.abs(L - v).min() < 1e-6:
                return False
            kw[name] = conv_(v)
            keep &= op(L, v)
    ok = keep & np.isfinite(y)
    if ok.sum() < 4:
        return False
    x, yy, w = np.log10(L[ok]), y[ok], err[ok] ** -2
    use_brk = c["brk"] and x.min() < np.log10(5.5) < x.max()
    if use_brk:
        kw["brk"] = conv_(5.2 if c["lo"] is None else 5.8)
        if not x.min() < np.log10(5.2) < np.log10(5.8) < x.max():
            return False
        r = Lm_Seg(x, yy, np.log10(5.2 if c["lo"] is None else 5.8),
                   weights=w)
        r.fit_model(verbose=False, cov_type="HC3")
    s.fit_plaw(**kw)
    require(s.fit_range[0] <= 10 ** x.min() * u.pix * (1 + 1e-9)
            and s.fit_range[1] >= 10 ** x.max() * u.pix * (1 - 1e-9),
            "fit range")
    xs = np.linspace(x.min(), x.max(), 7)[[3, 0, 6, 1, 5, 4, 2]]
    if use_brk and not r.break_fail_flag and (x < r.brk).sum() >= 3:
        require(s.brk is not None, "break dropped")
        close(s.brk.to(u.pix).value, 10 ** r.brk, "break", rtol=1e-5)
        close(s.slope, r.slopes, "slopes", rtol=1e-5,
              scale=np.abs(r.slopes).max() + .1)
        close(s.fitted_model(xs), r.model(xs), "model", rtol=1e-5, scale=1.)
        return True
    if use_brk and not r.break_fail_flag:
        require(s.brk is None, "break kept with too few points below it")
    b, e = ref.ols(x, yy, w)
    require(s.brk is None and s.brk_err is None, "unexpected break")
    close(s.slope, b[1], "slope", rtol=1e-7, scale=abs(b[1]) + .1)
    if ref.leverage(x, w) < 1 - 1e-4:
        close(s.slope_err, e[1], "slope error", rtol=1e-4, scale=e[1],
              atol=1e-6)
    if not use_brk:
        close(s.fitted_model(xs), b[0] + b[1] * xs, "model", rtol=1e-7,
              scale=np.abs(b).max() + 1)
    return c["p"] != 0


@facet(st.fixed_dictionaries(dict(shape=gen.shapes2(8, 24),
                                  seed=gen.SEED)), quick=25, thorough=500,
       rule="lags below a pixel or above half the map, bad weights and "
            "boundaries are refused")
def refusals(c):
    shape = tuple(c["shape"])
    a = np.random.RandomState(c["seed"] % 2 ** 32).rand(*shape)
    hdr = gen.header2(shape)
    half = min(shape) // 2
    DeltaVariance(a, header=hdr, lags=[1., half])
    raises(ValueError, lambda: DeltaVariance(a, header=hdr, lags=[0.9, 2.]),
           "lag below a pixel")
    raises(ValueError, lambda: DeltaVariance(a, header=hdr,
                                             lags=[2., half + 1.5]),
           "lag above half of the map")
    raises(ValueError, lambda: DeltaVariance(
        a, header=hdr, lags=np.array([2., half + 1.5]) * 0.01 * u.deg),
        "lag above half of the map")
    raises(ValueError, lambda: DeltaVariance(
        a, header=hdr, weights=np.ones((shape[0] + 1, shape[1]))),
        "weights of another shape")
    s = DeltaVariance(a, header=hdr, lags=[2., 3.])
    raises(ValueError, lambda: s.compute_deltavar(boundary="cut"),
           "unknown boundary")
    raises(TypeError, lambda: setattr(s, "lags", [2., 3.]),
           "lags without units assigned")
    s.compute_deltavar(show_progress=False)
    z = DeltaVariance(np.zeros(shape), header=hdr, lags=[2., 3.])
    z.compute_deltavar(show_progress=False)
    require(np.isnan(z.delta_var).all() and np.isnan(
        z.delta_var_error).all(), "delta-variance of an empty map")
    raises(ValueError, lambda: s.fit_plaw(brk=30 * u.pix),
           "break outside the fit range")
    return True
