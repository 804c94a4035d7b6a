"""Principal component analysis of cubes."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
import astropy.constants as const
from scipy.optimize import curve_fit
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises

from turbustat.statistics import PCA
from turbustat.statistics.fitting_utils import bayes_linear
from turbustat.statistics.pca.width_estimate import (WidthEstimate1D,
                                                     WidthEstimate2D)


def covariance(a, mean_sub):
    """Pairwise-complete (co)variances between channels"""
    n = a.shape[0]
    x = a.reshape(n, -1)
    if mean_sub:
        x = np.array([r - np.nanmean(r) if np.isfinite(r).any() else r
                      for r in x])
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            p = x[i] * x[j]
            p = p[np.isfinite(p)]
            d = p.size - (1 if mean_sub else 0)
            out[i, j] = p.sum() / d if d > 0 else 0.
    return out


cubes = gen.fields(gen.shapes3(3, 9, 4, 9), nan=(0, 0, 0.05, 0.2),
                   kinds=["noise", "lognormal", "powerlaw", "blobs"],
                   offsets=(0., 0., 3.))


def make(a, **kw):
    return PCA((a, gen.header3(a.shape)), **kw)


@facet(st.fixed_dictionaries(dict(
    f=cubes, mean_sub=st.booleans(), n=st.integers(-2, 11),
    auto=st.sampled_from([None, None, "value", "proportion"]),
    frac=st.floats(0.01, 0.995), empty=st.booleans(),
    common=st.booleans())), quick=220, thorough=8000,
    rule="covariance from all pairs of channels; eigenvalues and vectors "
         "from its decomposition; number of components by each rule")
def decomposition(c):
    a = gen.build(c["f"])
    if c["common"]:
        a[:, np.isnan(a).any(axis=0)] = np.nan
        if np.isfinite(a).sum() < 3 * a.shape[0]:
            return False
    if c["empty"]:
        a[a.shape[0] // 2] = np.nan
    nch = a.shape[0]
    cov = covariance(a, c["mean_sub"])
    w = np.linalg.eigvalsh(cov)[::-1]
    keep = a.copy()
    p = make(a)
    kw = dict(mean_sub=c["mean_sub"], show_progress=False)
    if c["auto"]:
        raises(ValueError, lambda: p.compute_pca(n_eigs="auto", **kw),
               "automatic number of components without a limit")
        if c["auto"] == "value":
            lim = w[0] * c["frac"] ** 3
            want = int((w >= lim).sum())
            amb = (np.abs(w - lim) < 1e-9 * w[0]).any()
        else:
            lim = c["frac"]
            cum = np.cumsum(w) / w.sum()
            want = max(int((cum <= lim).sum()), 1)
            amb = (np.abs(cum - lim) < 1e-9).any()
        if amb:
            return False
        kw.update(n_eigs="auto", min_eigval=lim,
                  eigen_cut_method=c["auto"])
    else:
        want = nch if c["n"] == -1 else c["n"]
        kw.update(n_eigs=c["n"])
        if c["n"] != -1 and not 1 <= c["n"] <= nch:
            raises(Warning, lambda: p.compute_pca(**kw),
                   "%s components of %s" % (c["n"], nch))
            return False
    p.compute_pca(**kw)
    close(a, keep, "input", rtol=0)
    require(p.n_eigs == want, "n_eigs %s, expected %s" % (p.n_eigs, want))
    close(p.cov_matrix, cov, "covariance matrix", rtol=1e-9)
    close(p.eigvals, w, "eigenvalues", rtol=1e-9)
    close(p.eigvecs.T.dot(p.eigvecs), np.eye(nch), "orthonormal vectors",
          rtol=1e-8)
    close(cov.dot(p.eigvecs), p.eigvecs * w, "eigenvectors", rtol=1e-8)
    lo = 0 if c["mean_sub"] else 1
    tot = w[lo:].sum()
    close(p.total_variance, tot, "total variance", rtol=1e-8,
          atol=1e-9 * w[0])
    if abs(tot) > 1e-6 * w[0]:
        close(p.var_proportion, w[lo:want].sum() / tot,
              "proportion of variance", rtol=1e-6, atol=1e-8)
    # once more through run, on the same object
    p.run(decomp_only=True, **kw)
    close(p.eigvals, w, "eigenvalues of a second run", rtol=1e-9)
    return w[0] > 0 and nch > 2


def acf(x):
    """Circular autocorrelation by direct summation, zero lag first"""
    out = np.zeros(x.shape)
    for idx in np.ndindex(*x.shape):
        out[idx] = (x * np.roll(x, tuple(-i for i in idx),
                                axis=tuple(range(x.ndim)))).sum()
    return out


def drop(x):
    """Known finding: the first sample is left out."""
    x = x.copy()
    x[(0,) * x.ndim] = 0.
    return x


def either(got, x, shift, what):
    """The autocorrelation, or the recorded finding's value"""
    outs = []
    for v in (x, drop(x)):
        want = acf(v)
        if shift:
            want = np.roll(want, tuple(n // 2 for n in x.shape),
                           axis=tuple(range(x.ndim)))
        outs.append(want)
    if got.shape == outs[0].shape and np.abs(got - outs[0]).max() <= \
            1e-9 * np.abs(outs[0]).max():
        return
    close(got, outs[1], what, rtol=1e-9, atol=1e-9 * outs[0].max())


@facet(st.fixed_dictionaries(dict(
    f=cubes, mean_sub=st.booleans(), n=st.integers(1, 9),
    m=st.integers(-5, 5))), quick=120, thorough=4000,
    rule="eigenimages are the channels weighted by the eigenvectors; "
         "autocorrelations by direct summation")
def components(c):
    a = gen.build(c["f"])
    nch = a.shape[0]
    n = min(c["n"], nch)
    p = make(a)
    p.compute_pca(mean_sub=c["mean_sub"], n_eigs=n, show_progress=False)
    x = a.copy()
    if c["mean_sub"]:
        x = x - np.nanmean(x.reshape(nch, -1), axis=1)[:, None, None]
    x = np.nan_to_num(x)
    every = np.tensordot(p.eigvecs.T, x, axes=1)
    w = p.eigvals
    for m in (None, c["m"]):
        if m == 0:
            continue
        if m is None:
            ids = list(range(n))
        elif m > 0:
            ids = list(range(min(m, nch)))
            m = min(m, nch)
        else:
            if (np.abs(w) < 1e-9 * w[0]).any() or w[0] < 1e-9:
                continue
            ids = list(np.where(w > 0)[0][m:])
            m = -len(ids)
        ims = p.eigimages(n_eigs=m)
        close(ims, every[ids], "eigenimages", rtol=1e-8)
        acs = p.autocorr_images(n_eigs=m)
        require(len(acs) == len(ids), "number of autocorrelation images")
        spec = p.autocorr_spec(n_eigs=m)
        require(spec.shape == (nch, len(ids)), "shape of the spectra")
        for k, i in enumerate(ids):
            either(acs[k], every[i], True, "autocorrelation image %s" % i)
            either(spec[:, k], p.eigvecs[:, i], False,
                   "autocorrelation spectrum %s" % i)
        if m is not None:
            close(p.noise_ACF(n_eigs=m), np.mean(acs, axis=0),
                  "noise autocorrelation", rtol=1e-9)
    return n > 1 and a.shape[1] != a.shape[2]


def gauss2(shape, sx, sy, th):
    y, x = np.meshgrid(*[np.arange(n) - n // 2 for n in shape],
                       indexing="ij")
    c, s = np.cos(th), np.sin(th)
    a = (x * c + y * s) / sx
    b = (-x * s + y * c) / sy
    return np.exp(-0.5 * (a ** 2 + b ** 2))


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(48, 72), s=st.lists(
        st.tuples(st.floats(3., 7.), st.one_of(st.just(1.), st.floats(0.5, 1.)), st.floats(0, 3.1))
        .map(list), min_size=1, max_size=4),
    method=st.sampled_from(["contour", "contour", "fit", "interpolate",
                            "xinterpolate"]),
    amp=st.sampled_from([1., 30., 1e-3]), beam=st.sampled_from(
        [None, 1., 2.5, 4.]), noise=st.sampled_from([0., 0.3, 2.]),
    cd=st.sampled_from([0.5, -0.01]), seed=gen.SEED)),
    quick=70, thorough=2500,
    rule="widths of Gaussian autocorrelations of known size and shape, "
         "beam correction, noise subtraction")
def spatial_widths(c):
    ims, want = [], []
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    noise = c["noise"] * rng.rand(*c["shape"]) if c["noise"] else 0.
    for s, r, th in c["s"]:
        if c["method"] == "interpolate":
            r = 1.
        im = gauss2(c["shape"], s, s * r, th)
        if "interp" in c["method"]:       # needs distinct values
            im = im + 1e-3 * rng.normal(size=im.shape)
        ims.append(c["amp"] * im + noise)
        want.append((s, s * r))
    ims = np.array(ims)
    keep = ims.copy()
    kw = dict(noise_ACF=noise, method=c["method"])
    if c["beam"]:
        kw.update(brunt_beamcorrect=True,
                  beam_fwhm=c["beam"] * abs(c["cd"]) * 3600 * u.arcsec,
                  spatial_cdelt=c["cd"] * u.deg)
    else:
        kw.update(brunt_beamcorrect=False)
    if c["method"] == "contour":
        kw.update(niters=10)
    got, err = WidthEstimate2D(ims, **kw)
    close(ims, keep, "input", rtol=0)
    require(len(got) == len(err) == len(ims), "one width per image")
    t = 0.
    if c["beam"]:
        t = 0.25 * c["beam"] / np.sqrt(8 * np.log(2)) / np.sqrt(2)
    for i, (sa, sb) in enumerate(want):
        w = np.hypot(sa - t, sb - t)
        # linear contours of small ellipses are inside the true ones
        tol = dict(contour=0.03, fit=0.01, interpolate=0.06,
                   xinterpolate=0.2)[c["method"]]
        require(abs(got[i] / w - 1) < tol,
                "width %r, expected %r (%s)" % (got[i], w, c["method"]))
        require(not err[i] < 0, "negative error")
    one, _ = WidthEstimate2D(ims[-1:], **kw)
    close(one[0], got[-1], "width alone and in a list", rtol=1e-9)
    if c["method"] == "contour":
        # without a closed 1/e contour there is no width
        flat = c["amp"] + noise + np.zeros_like(ims[:1])
        g, e = WidthEstimate2D(np.concatenate([ims[:1], flat]), **kw)
        close(g[0], got[0], "width next to a flat image", rtol=1e-9)
        require(np.isnan(g[1]) and np.isnan(e[1]),
                "width %r, error %r of a flat image" % (g[1], e[1]))
    raises(ValueError, lambda: WidthEstimate2D(ims, method="contours"),
           "unknown method")
    raises(ValueError, lambda: WidthEstimate2D(
        ims, method="interpolate", brunt_beamcorrect=True),
        "beam correction without a beam")
    return len(ims) > 1 and (c["beam"] is not None or c["noise"] > 0)


@facet(st.fixed_dictionaries(dict(
    n=st.integers(6, 60), m=st.integers(1, 4), seed=gen.SEED,
    kind=st.sampled_from(["random", "acf", "flat"]))), quick=200,
    thorough=8000,
    rule="first crossing of 1/e by linear interpolation")
def walk_down(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    cols = []
    for _ in range(c["m"]):
        if c["kind"] == "random":
            y = rng.rand(n) * 0.98
            y[0] = 1.
        elif c["kind"] == "flat":
            y = 0.5 + 0.4 * rng.rand(n)
            y[0] = 1.
        else:
            v = np.exp(-0.5 * ((np.arange(n) - n / 2.)
                               / (0.5 + rng.rand() * n / 8.)) ** 2)
            y = acf(v + 0.01 * rng.rand(n))
        cols.append(y * 10 ** rng.uniform(-3, 3))
    y = np.array(cols).T
    keep = y.copy()
    got, err = WidthEstimate1D(y, method="walk-down")
    close(y, keep, "input", rtol=0)
    again, _ = WidthEstimate1D(y)
    close(again, got, "default method", rtol=1e-12)
    lev = np.exp(-1)
    crossed = 0
    for i, col in enumerate(cols):
        v = col / col.max()
        below = np.where(v < lev)[0]
        if not below.size:
            require(np.isnan(got[i]) and np.isnan(err[i]),
                    "a width without reaching 1/e")
            continue
        k = below[0]
        if k > (n - 1) // 2:
            continue          # past the centre: lags are negative there
        w = (k - 1) + (v[k - 1] - lev) / (v[k - 1] - v[k])
        close(got[i], w, "spectral width", rtol=1e-8)
        close(err[i], 0.5, "error", rtol=0)
        crossed += 1
    raises(ValueError, lambda: WidthEstimate1D(y, method="bisect"),
           "unknown method")
    return crossed > 1


@facet(st.fixed_dictionaries(dict(
    n=st.integers(40, 121), s=st.lists(st.floats(2., 5.5), min_size=1,
                                       max_size=3),
    method=st.sampled_from(["fit", "interpolate", "walk-down"]))),
    quick=60, thorough=2500,
    rule="width of Gaussian autocorrelations of known size")
def spectral_widths(c):
    n = c["n"]
    lag = np.minimum(np.arange(n), n - np.arange(n)).astype(float)
    y = np.array([np.exp(-0.5 * (lag / s) ** 2) for s in c["s"]]).T
    keep = y.copy()
    got, err = WidthEstimate1D(y, method=c["method"])
    close(y, keep, "input", rtol=0)
    tol = dict(fit=1e-5, interpolate=0.02)
    tol["walk-down"] = 0.02
    for i, s in enumerate(c["s"]):
        require(abs(got[i] / (np.sqrt(2) * s) - 1) < tol[c["method"]],
                "width %r, expected %r" % (got[i], np.sqrt(2) * s))
    return len(c["s"]) > 1


def mcmc(c, p, kw, lx, ly, ex, ey, cs):
    """The MCMC fit reports the medians and 1-sigma ranges of its samples"""
    kmc = dict(nBurn=30, nSample=60)
    old = np.random.get_state()
    try:
        np.random.seed(c["seed"] % 2 ** 32)
        stats.quiet(p.fit_plaw, fit_method="bayes", **dict(kw, **kmc))
        np.random.seed(c["seed"] % 2 ** 32)
        par, rng_, samp = stats.quiet(bayes_linear, lx, ly, ex, ey,
                                      return_samples=True, **kmc)
    finally:
        np.random.set_state(old)
    close(p.index, par[0], "index (MCMC)", rtol=1e-6)
    close(np.log10(p.intercept().value), par[1], "intercept (MCMC)",
          rtol=1e-6, atol=1e-6)
    close(p.index_error_range, rng_[0], "index range (MCMC)", rtol=1e-6)
    close(np.log10(p.intercept_error_range().value), rng_[1],
          "intercept range (MCMC)", rtol=1e-6, atol=1e-6)
    for use in (True, False):
        ind = 1.52 * par[0] - 0.19 if use else par[0]
        sl = 1.52 * samp[0] - 0.19 if use else samp[0]
        if abs(ind) < 0.05:
            continue
        with np.errstate(all="ignore"):
            lam = (cs / 10 ** samp[1]) ** (1. / sl)
        if not np.isfinite(lam).all():
            continue
        got, lim = p.sonic_length(T_k=c["T"] * u.K, mu=c["mu"],
                                  use_gamma=use)
        close(got.value, (cs / 10 ** par[1]) ** (1. / ind),
              "sonic length (MCMC)", rtol=1e-5)
        a = np.percentile(lam, [13.5, 17.5, 82.5, 86.5])
        t = 1e-5 * np.abs(a)
        lo, hi = np.sort(lim.value)
        require(a[0] - t[0] <= lo <= a[1] + t[1]
                and a[2] - t[2] <= hi <= a[3] + t[3],
                "1-sigma range of the sonic length: %r, samples give %r" % (
                    lim.value, a))


@facet(st.fixed_dictionaries(dict(
    n=st.integers(5, 14), seed=gen.SEED, index=st.floats(0.2, 1.8),
    icept=st.floats(-1., 1.), scatter=st.sampled_from([0., 0., 0.03, 0.1]),
    lim=st.sampled_from(["none", "low", "high", "both"]),
    unit=st.sampled_from(["pix", "deg", "pc"]),
    bad=st.booleans(), T=st.sampled_from([10., 35.]),
    mu=st.sampled_from([1.36, 2.33]))),
    quick=150, thorough=6000,
    rule="orthogonal distance regression in the requested range is optimal, "
         "exact for exact relations; corrected index and sonic length")
def relation(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    shape = (6, 5, 5)
    dv = 100.
    p = PCA((rng.rand(*shape), gen.header3(shape, dv=dv)),
            distance=50 * u.pc)
    n = c["n"]
    lx = np.sort(rng.uniform(0., 1.5, n))
    if np.diff(lx).min() < 1e-3:
        return False
    lo, hi = -np.inf, np.inf
    kw = {}
    if c["lim"] in ("low", "both"):
        lo = 0.5 * (lx[0] + lx[1])
    if c["lim"] in ("high", "both"):
        hi = 0.5 * (lx[-1] + lx[-2])
    inside = (lx >= lo) & (lx <= hi)
    ly = c["index"] * lx + c["icept"] + c["scatter"] * rng.normal(size=n)
    ly[~inside] += 5.
    ex, ey = 0.01 + 0.05 * rng.rand(n), 0.01 + 0.05 * rng.rand(n)
    x, y = 10 ** lx, 10 ** ly
    sx, sy = ex * x, ey * y
    if c["bad"]:
        k = n // 2
        [x, y, sx, sy][c["seed"] % 4][k] = np.nan
        inside[k] = False
    p._spatial_width, p._spatial_width_error = x * u.pix, sx * u.pix
    p._spectral_width, p._spectral_width_error = y * u.pix, sy * u.pix
    try:
        ok = np.array_equal(p.spatial_width().value, x, equal_nan=True) and \
            np.array_equal(p.spectral_width().value, y, equal_nan=True)
    except AttributeError:
        ok = False
    if not ok:      # widths are kept elsewhere: nothing can be decided here
        return False

    def length(v):
        v = 10 ** v
        if c["unit"] == "pix":
            return v * u.pix
        if c["unit"] == "deg":
            return v * 0.01 * u.deg
        return v * np.deg2rad(0.01) * 50 * u.pc

    if np.isfinite(lo):
        kw["xlow"] = length(lo)
    if np.isfinite(hi):
        kw["xhigh"] = length(hi)
    p.fit_plaw(**kw)
    m = inside
    icept = np.log10(p.intercept().value)
    exx, eyy = 0.434 * sx[m] / x[m], 0.434 * sy[m] / y[m]

    def chi2(a, b):
        return ((ly[m] - a * lx[m] - b) ** 2
                / (eyy ** 2 + a ** 2 * exx ** 2)).sum()

    best = chi2(p.index, icept)
    if c["scatter"] == 0.:
        close(p.index, c["index"], "index", rtol=1e-6)
        close(icept, c["icept"], "intercept", rtol=0, atol=1e-6)
    else:
        for da, db in ((1e-3, 0), (-1e-3, 0), (0, 1e-3), (0, -1e-3),
                       (1e-3, -1e-3), (-1e-3, 1e-3)):
            require(best <= chi2(p.index + da, icept + db) * (1 + 1e-6)
                    + 1e-9, "the fit is not optimal: %r" % best)
    for lohi, val in ((p.index_error_range, p.index),
                      (np.log10(p.intercept_error_range().value), icept)):
        require(lohi[0] <= val + 1e-9 and val <= lohi[1] + 1e-9,
                "value outside its range")
        close(lohi[0] + lohi[1], 2 * val, "symmetric range", rtol=1e-7,
              atol=1e-9)
    if c["scatter"]:
        # the slope's error shrinks to that of least squares for the same
        # effective weights (within the linearisation)
        wts = 1. / (eyy ** 2 + p.index ** 2 * exx ** 2)
        A = np.vstack([lx[m], np.ones(m.sum())]).T
        cv = np.linalg.inv((A * wts[:, None]).T.dot(A)) * best \
            / (m.sum() - 2.)
        got = 0.5 * np.ptp(p.index_error_range)
        if m.sum() > 4:
            require(0.3 < got / np.sqrt(cv[0, 0]) < 3.,
                    "error of the index: %r, expected about %r" % (
                        got, np.sqrt(cv[0, 0])))
    close(p.gamma, 1.52 * p.index - 0.19, "gamma", rtol=1e-9)
    g = p.gamma_error_range
    r = p.index_error_range
    close(np.array(g), [1.34 * r[0] - 0.39, 1.70 * r[1] + 0.01],
          "gamma range", rtol=1e-9)
    close(p.model(lx), p.index * lx + icept, "model", rtol=1e-9)
    close(p.intercept(unit=u.m / u.s).to(u.m / u.s).value,
          10 ** icept * dv, "intercept in velocity", rtol=1e-9)
    close(p.spatial_width(u.deg).to(u.deg).value, x * 0.01,
          "widths in degrees", rtol=1e-9)
    close(p.spatial_width_error(u.pc).to(u.pc).value,
          sx * np.deg2rad(0.01) * 50, "width errors in parsec", rtol=1e-9)
    close(p.spectral_width(u.km / u.s).to(u.m / u.s).value, y * dv,
          "widths in velocity", rtol=1e-9)
    close(p.spectral_width_error(u.pix).value, sy, "width errors", rtol=1e-9)
    # sonic length
    cs = np.sqrt(const.k_B * c["T"] * u.K / (c["mu"] * const.m_p)).to(
        u.m / u.s).value / dv
    for use in (True, False):
        ind = p.gamma if use else p.index
        rng_ = p.gamma_error_range if use else p.index_error_range
        if abs(ind) < 0.05:
            continue
        lam = (cs / 10 ** icept) ** (1. / ind)
        got, lim = p.sonic_length(T_k=c["T"] * u.K, mu=c["mu"],
                                  use_gamma=use)
        close(got.value, lam, "sonic length", rtol=1e-7)
        require(got.unit == u.pix and lim.unit == u.pix,
                "unit of the sonic length")
        derr = abs(ind - rng_[0])
        ierr = abs(10 ** icept - p.intercept_error_range().value[0])
        e = abs(lam / ind) * np.hypot(np.log(cs / 10 ** icept) * derr / ind,
                                      ierr / 10 ** icept)
        if np.isfinite(e):
            close(np.sort(lim.value), np.sort([lam - e, lam + e]),
                  "sonic length range", rtol=1e-6)
        d, _ = p.sonic_length(T_k=c["T"] * u.K, mu=c["mu"], use_gamma=use,
                              unit=u.pc)
        close(d.to(u.pc).value, lam * np.deg2rad(0.01) * 50,
              "sonic length in parsec", rtol=1e-7)
    if c["seed"] % 8 == 0:
        mcmc(c, p, kw, lx[m], ly[m], exx, eyy, cs)
    raises(ValueError, lambda: p.fit_plaw(xlow=length(9.)),
           "limits without points")
    raises(TypeError, lambda: p.fit_plaw(xlow=3.), "limit without a unit")
    raises(TypeError, lambda: p.fit_plaw(fit_method="ols"),
           "unknown fit method")
    return m.sum() > 3 and (c["scatter"] > 0 or c["lim"] != "none")


@facet(st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(16, 24), st.integers(16, 22),
                    st.integers(16, 22)).map(list),
    seed=gen.SEED, mean_sub=st.booleans(), n=st.integers(2, 5),
    beam=st.sampled_from([None, 0.5, 1.5]))), quick=24, thorough=800,
    rule="run gives what its steps give; widths follow the cube's "
         "transposes, scaling and units")
def pipeline(c):
    a = gen.build(dict(shape=c["shape"], kind="powerlaw", seed=c["seed"]))
    a = np.exp(a)
    hdr = gen.header3(a.shape)
    kw = dict(mean_sub=c["mean_sub"], n_eigs=c["n"], show_progress=False)
    if c["beam"]:
        wk = dict(brunt_beamcorrect=True, beam_fwhm=c["beam"] * 0.01 * u.deg)
    else:
        wk = dict(brunt_beamcorrect=False)

    def widths(arr):
        p = PCA((np.ascontiguousarray(arr), gen.header3(arr.shape)))
        p.compute_pca(**kw)
        p.find_spatial_widths(**wk)
        p.find_spectral_widths()
        return p

    p = widths(a)
    acs = p.autocorr_images(n_eigs=c["n"])
    got = p.spatial_width().value
    raw = PCA((a, hdr))
    raw.compute_pca(**kw)
    want, _ = WidthEstimate2D(acs, noise_ACF=p.noise_ACF(),
                              spatial_cdelt=0.01 * u.deg, niters=5, **wk)
    close(got, want, "spatial widths", rtol=1e-8)
    spec, _ = WidthEstimate1D(p.autocorr_spec(n_eigs=c["n"]))
    close(p.spectral_width().value, spec, "spectral widths", rtol=1e-8)
    w = p.eigvals
    if (np.diff(-w[:c["n"] + 1]) > 1e-6 * w[0]).all():
        q = widths(3. * a)
        close(q.eigvals, 9. * w, "eigenvalues of a scaled cube", rtol=1e-9)
        close(q.spectral_width().value, spec,
              "spectral widths of a scaled cube", rtol=1e-6)
        qw = q.spatial_width().value
        big = (qw > 2.) & (got > 2.)    # contours of a few points are not
        close(qw[big], got[big],        # well conditioned
              "spatial widths of a scaled cube", rtol=1e-5)
        q = widths(a.swapaxes(1, 2))
        close(q.eigvals, w, "eigenvalues of a transposed cube", rtol=1e-9)
        close(q.spectral_width().value, spec,
              "spectral widths of a transposed cube", rtol=1e-6)
    perm = np.random.RandomState(c["seed"] % 97).permutation(a.shape[0])
    q = PCA((np.ascontiguousarray(a[perm]), hdr))
    q.compute_pca(**kw)
    close(q.eigvals, w, "eigenvalues with channels reordered", rtol=1e-9)
    ok = np.isfinite(got) & np.isfinite(spec) & (spec > 0) & (got > 0)
    if ok.sum() == c["n"] and c["n"] > 2:
        r = PCA((a, hdr))
        r.run(**dict(kw, **wk))
        p.fit_plaw()
        close(r.spatial_width().value, got, "widths from run", rtol=1e-9)
        close(r.spectral_width().value, spec, "widths from run", rtol=1e-9)
        if c["beam"] is None:
            require(np.isfinite(r.index), "no index from run")
    raises(ValueError, lambda: PCA((a, hdr)).run(
        n_eigs=3, show_progress=False), "beam correction without a beam")
    raises(Warning, lambda: PCA((a, _freq(hdr))), "frequency axis")
    return np.isfinite(got).any()


def _freq(h):
    h = h.copy()
    h["CTYPE3"], h["CUNIT3"] = "FREQ", "Hz"
    h["CDELT3"], h["CRVAL3"] = 1e3, 1.4e9
    return h


@facet(st.fixed_dictionaries(dict(
    n=st.integers(50, 90), s=st.floats(4., 9.), noise=st.floats(1e-3, 0.03),
    amp=st.sampled_from([1., 40.]), seed=gen.SEED)), quick=60, thorough=2500,
    rule="standard errors of the fitted spectral widths, against an "
         "independent least squares fit before the first local minimum")
def spectral_fit_errors(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    lag = np.minimum(np.arange(n), n - np.arange(n)).astype(float)
    y = c["amp"] * (np.exp(-0.5 * (lag / c["s"]) ** 2)
                    + c["noise"] * rng.normal(size=n))
    y[0] = y.max() + c["amp"] * 0.01
    got, err = WidthEstimate1D(y[:, None], method="fit")
    k = next((i for i in range(1, n - 1) if y[i] < y[i - 1]
              and y[i] < y[i + 1]), n // 2)
    if k < 6:
        return False
    p, cov = curve_fit(lambda x, w: y[0] * np.exp(-0.5 * (x / w) ** 2),
                       lag[:k], y[:k], p0=[c["s"]])
    if np.isnan(got[0]):
        require(np.isnan(err[0]), "error %r of a failed fit" % err[0])
        return False
    close(got[0], abs(p[0]) * np.sqrt(2), "fitted width", rtol=1e-3)
    close(err[0], np.sqrt(cov[0, 0] * 2), "error of the width", rtol=0.02)
    return True


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(40, 56), s=st.floats(3., 6.), r=st.floats(0.5, 0.8),
    th=st.floats(0.1, 1.4), noise=st.floats(1e-3, 0.03),
    beam=st.sampled_from([None, 2., 4.]), seed=gen.SEED)),
    quick=40, thorough=1500,
    rule="standard errors of the widths of elongated autocorrelations, "
         "against an independent least squares fit; elongated in any "
         "direction, with and without the beam correction")
def spatial_fit_errors(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    im = gauss2(c["shape"], c["s"], c["s"] * c["r"], c["th"])
    im = im + c["noise"] * rng.normal(size=im.shape)
    im[tuple(n // 2 for n in c["shape"])] = 1.1
    kw = dict(brunt_beamcorrect=False)
    t = 0.
    if c["beam"]:
        kw = dict(brunt_beamcorrect=True, beam_fwhm=c["beam"] * u.arcsec,
                  spatial_cdelt=1. * u.arcsec)
        t = 0.25 * c["beam"] / np.sqrt(8 * np.log(2)) / np.sqrt(2)
    got, err = WidthEstimate2D(im[None], method="fit", noise_ACF=0., **kw)
    yy, xx = np.meshgrid(*[np.arange(n) - n // 2 for n in c["shape"]],
                         indexing="ij")

    def model(_, a, b, th, bg):
        cc, s = np.cos(th), np.sin(th)
        return bg + (im.max() * np.exp(-0.5 * (
            ((xx * cc + yy * s) / a) ** 2
            + ((-xx * s + yy * cc) / b) ** 2))).ravel()
    p, cov = curve_fit(model, None, im.ravel(),
                       p0=[c["s"], c["s"] * c["r"], c["th"], 0.])
    a, b = np.abs(p[:2]) - t
    w = np.hypot(a, b)
    if not abs(got[0] / w - 1) < 1e-5:
        return False        # stopped elsewhere: it starts from a circle
    e = np.hypot(a * np.sqrt(cov[0, 0]), b * np.sqrt(cov[1, 1])) / w
    close(err[0], e, "error of the width", rtol=0.03)
    return True
