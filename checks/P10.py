"""Segmented (broken) linear fits."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet, Violation
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics.lm_seg import Lm_Seg
from turbustat.statistics import (PowerSpectrum, Wavelet, DeltaVariance,
                                   VCS)

RULE = "a break was found and the two slopes differ"

broken = st.fixed_dictionaries(dict(
    n=st.integers(15, 70), seed=gen.SEED,
    length=st.sampled_from([0.7, 1., 3., 10.]),
    x0=st.sampled_from([0., -2., 5.]),
    pos=st.integers(30, 70), slope=st.integers(-40, 40),
    change=st.one_of(st.integers(10, 40), st.integers(-40, -10)),
    start=st.integers(-15, 15), far=st.sampled_from([None, None, 10, 88]),
    noise=st.sampled_from([0, 0, .02, .1]),
    weights=st.booleans(), nan=st.sampled_from([0, 0, 1, 4]),
    grid=st.booleans()))


def data(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    t = np.linspace(0, 1, c["n"]) if c["grid"] else np.sort(rng.rand(c["n"]))
    x = c["x0"] + c["length"] * t
    L = x.max() - x.min()
    b = x.min() + L * c["pos"] / 100.
    s1, ds = c["slope"] / 10., c["change"] / 10.
    y = 1 + s1 * x + ds * np.maximum(x - b, 0)
    y = y + rng.normal(size=x.size) * c["noise"] * L
    w = 0.2 + rng.rand(x.size) if c["weights"] else None
    start = b + L * c["start"] / 100.
    if c.get("far"):
        start = x.min() + L * c["far"] / 100.
    return x, y, w, b, s1, ds, start, L, rng


def lsq(cols, y, w):
    A = np.vstack(cols).T
    sw = np.ones_like(y) if w is None else np.sqrt(w)
    p, res, rank, sv = np.linalg.lstsq(A * sw[:, None], y * sw, rcond=None)
    return p, rank, A


@facet(broken, quick=250, thorough=10000,
       rule="exact broken lines give back their break and slopes")
def recovery(c):
    c = dict(c, noise=0)
    x, y, w, b, s1, ds, start, L, rng = data(c)
    if ((x < b - .02 * L).sum() < 5) or ((x > b + .02 * L).sum() < 5):
        return False
    if min((x < start).sum(), (x > start).sum()) < 3:
        return False
    if c["grid"] and w is None:
        m = Lm_Seg(x, y, start)
        m.fit_model(verbose=False)
        require(not m.break_fail_flag and abs(m.brk - b) < .1 * L,
                "break at %r found at %r" % (b, m.brk))
    m = Lm_Seg(x, y, start, weights=w)
    m.fit_model(verbose=False, tol=1e-12, h_step=1.0)
    require(not m.break_fail_flag, "no break found in an exact broken line")
    close(m.brk, b, "break", rtol=1e-6, scale=L)
    close(m.slopes, [s1, s1 + ds], "slopes", rtol=1e-6,
          scale=abs(s1) + abs(ds))
    xs = np.linspace(x.min() - .2 * L, x.max() + .2 * L, 41)
    close(m.model(xs), 1 + s1 * xs + ds * np.maximum(xs - b, 0), "model",
          rtol=1e-6, scale=1 + (abs(s1) + abs(ds)) * np.abs(xs).max())
    return True


@facet(st.fixed_dictionaries(dict(seed=gen.SEED, n=st.integers(60, 160),
                                  ratio=st.sampled_from([1.2, 1.3, 1.45]))),
       quick=20, thorough=600,
       rule="breaks that lower the sum of squares by 20-45 per cent are kept "
            "in most of eight noisy data sets")
def weak_breaks(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    x = np.linspace(0, 1, n)
    kept = near = 0
    for _ in range(8):
        b = rng.uniform(.35, .65)
        s1, ds = rng.uniform(-3, 3), rng.choice([-1, 1]) * rng.uniform(1, 4)
        y0 = s1 * x + ds * np.maximum(x - b, 0)
        e = rng.normal(size=n) * abs(ds)

        def rss(y, cols):
            p, _, A = lsq(cols, y, None)
            return ((y - A.dot(p)) ** 2).sum()
        line = [np.ones(n), x]
        seg = line + [np.maximum(x - b, 0)]
        lo, hi = 0., 1.
        for _ in range(40):
            mid = .5 * (lo + hi)
            y = y0 + mid * e
            if rss(y, line) / rss(y, seg) > c["ratio"]:
                lo = mid
            else:
                hi = mid
        m = Lm_Seg(x, y0 + lo * e, b)
        m.fit_model(verbose=False)
        kept += not m.break_fail_flag
        near += abs(m.brk - b) < .25
    require(kept >= 4 and near >= 1, "%d of 8 breaks kept, %d close" % (
        kept, near))
    return True


@facet(broken, quick=250, thorough=10000,
       rule="the reported parameters are the least-squares solution at the "
            "reported break")
def least_squares(c):
    x, y, w, b, s1, ds, start, L, rng = data(c)
    keep = [a.copy() for a in (x, y)]
    if c["nan"]:
        i = rng.permutation(x.size)[:c["nan"]]
        y[i] = rng.choice([np.nan, np.inf, -np.inf])
    ok = np.isfinite(y)
    y0 = y.copy()
    w0 = None if w is None else w.copy()
    if not (x[ok].min() < start < x[ok].max()):
        return False
    m = Lm_Seg(x, y, start, weights=w)
    m.fit_model(verbose=False)
    require(np.array_equal(y, y0, equal_nan=True)
            and np.array_equal(x, keep[0])
            and (w is None or np.array_equal(w, w0)), "inputs modified")
    xg, yg = x[ok], y[ok]
    wg = None if w is None else w[ok]
    line, _, A1 = lsq([np.ones_like(xg), xg], yg, wg)
    r1 = (A1.dot(line) - yg)
    if m.break_fail_flag:
        close(m.slopes, [line[1]], "slope without a break", rtol=1e-7,
              scale=abs(line[1]) + np.ptp(yg) / np.ptp(xg))
        close(m.model(xg), A1.dot(line), "model without a break",
              rtol=1e-7, scale=np.abs(yg).max() + 1)
        sw = np.ones_like(yg) if wg is None else np.sqrt(wg)
        Aw = A1 * sw[:, None]
        e = r1 * sw
        cov = np.linalg.inv(Aw.T.dot(Aw)) * (e ** 2).sum() / (xg.size - 2)
        close(m.slope_errs, [np.sqrt(cov[1, 1])],
              "slope error without a break", rtol=1e-5,
              atol=1e-7 * (abs(line[1]) + np.ptp(yg) / np.ptp(xg)))
        require(m.brk_err == 0., "error %s of no break" % m.brk_err)
        require(len(m.params) == 3 and len(m.param_errs) == 3,
                "number of parameters")
        return False
    require(xg.min() <= m.brk <= xg.max(), "break %r outside the data"
            % m.brk)
    d = xg - m.brk
    if np.abs(d).min() < 1e-9 * L:
        return False
    cols = [np.ones_like(xg), xg, np.maximum(d, 0), -(d > 0).astype(float)]
    p, rank, A = lsq(cols, yg, wg)
    if rank < 4 or (d > 0).sum() < 3 or (d < 0).sum() < 3:
        return False
    sc = np.abs(p[1:3]).sum() + np.ptp(yg) / np.ptp(xg)
    close(m.slopes, [p[1], p[1] + p[2]], "slopes", rtol=1e-6, scale=sc)
    # parameter errors: homoscedastic (weighted) least squares
    sw = np.ones_like(yg) if wg is None else np.sqrt(wg)
    Aw = A * sw[:, None]
    e = (yg - A.dot(p)) * sw
    cov = np.linalg.inv(Aw.T.dot(Aw)) * (e ** 2).sum() / (xg.size - 4)
    se = np.sqrt(np.diag(cov))
    close(m.slope_errs, [se[1], np.hypot(se[1], se[2])], "slope errors",
          rtol=1e-4, scale=se[1] + se[2] + 1e-6 * sc)
    # the break moves by p[3] / p[2]
    G = np.array([-p[3] / p[2], 1.]) / p[2]
    want = np.sqrt(G.dot(cov[2:, 2:]).dot(G))
    if abs(p[2]) > 1e-3 * sc:
        close(m.brk_err, want, "error of the break", rtol=1e-3,
              atol=1e-6 * L)
        close(m.params, list(p) + [m.brk], "parameters", rtol=1e-5,
              scale=np.abs(p).max() + abs(m.brk))
        close(m.param_errs, list(se) + [want], "errors of the parameters",
              rtol=1e-3, scale=np.abs(se).max() + 1e-6)
    # the model is continuous, straight on both sides of the break
    lo, hi = m.brk - np.array([1., .5, 0.]) * L, \
        m.brk + np.array([0., .5, 1.]) * L
    msc = np.abs(yg).max() + sc * (np.abs(xg).max() + L)
    close(m.model(lo), p[0] + p[1] * lo, "model below the break", rtol=1e-6,
          scale=msc)
    close(m.model(hi), p[0] + p[1] * m.brk + (p[1] + p[2]) * (hi - m.brk),
          "model above the break", rtol=1e-6, scale=msc)
    close(m.model()(lo), m.model(lo), "callable model", rtol=1e-12)
    require((r1 ** 2).sum() * (1 + 1e-6) + 1e-12 >= 0, "")
    return True


@facet(broken, quick=100, thorough=4000,
       rule="non-finite points (and their weights) have no influence; "
            "uniform weights are no weights")
def ignored_points(c):
    x, y, w, b, s1, ds, start, L, rng = data(c)

    def fit(x, y, w):
        m = Lm_Seg(x, y, start, weights=w)
        m.fit_model(verbose=False)
        return m
    k = max(c["nan"], 1)
    at = np.sort(rng.randint(0, x.size + 1, size=k))
    xi = np.insert(x, at, rng.uniform(x.min(), x.max(), k))
    yi = np.insert(y, at, rng.choice([np.nan, np.inf]))
    wi = None if w is None else np.insert(w, at, 50.)
    m0, m1 = fit(x, y, w), fit(xi, yi, wi)
    require(m0.break_fail_flag == m1.break_fail_flag, "fit outcome changed")
    sc = np.abs(m0.params).max() + 1
    if m0.break_fail_flag:
        return False
    close(m1.params, m0.params, "parameters", rtol=1e-7, scale=sc)
    close(m1.param_errs, m0.param_errs, "errors", rtol=1e-5, scale=sc)
    m2 = fit(x, y, np.ones_like(x) if w is None else 3. * w)
    require(m0.break_fail_flag == m2.break_fail_flag, "fit outcome changed")
    return True


@facet(broken, quick=60, thorough=2000,
       rule="rescaling the weights or permuting the points changes nothing "
            "for exact broken lines")
def equivariance(c):
    c = dict(c, noise=0)
    x, y, w, b, s1, ds, start, L, rng = data(c)
    if ((x < b - .02 * L).sum() < 5) or ((x > b + .02 * L).sum() < 5):
        return False
    if min((x < start).sum(), (x > start).sum()) < 3:
        return False
    perm = rng.permutation(x.size)
    m = Lm_Seg(x[perm], y[perm], start,
               weights=None if w is None else 7. * w[perm])
    m.fit_model(verbose=False, tol=1e-12, h_step=1.0)
    close(m.brk, b, "break", rtol=1e-6, scale=L)
    close(m.slopes, [s1, s1 + ds], "slopes", rtol=1e-6,
          scale=abs(s1) + abs(ds))
    # mirrored axis: slopes swap and change sign
    m = Lm_Seg(-x, y, -start, weights=w)
    m.fit_model(verbose=False, tol=1e-12, h_step=1.0)
    close(m.brk, -b, "mirrored break", rtol=1e-6, scale=L)
    close(m.slopes, [-(s1 + ds), -s1], "mirrored slopes", rtol=1e-6,
          scale=abs(s1) + abs(ds))
    return True


@facet(broken, quick=60, thorough=1000, rule="bad starting breaks, weights "
       "or too few points are refused")
def refusals(c):
    x, y, w, b, s1, ds, start, L, rng = data(c)
    raises(ValueError, lambda: Lm_Seg(x, y, x.max() + 0.01 * L), "high brk")
    raises(ValueError, lambda: Lm_Seg(x, y, x.min() - 0.01 * L), "low brk")
    for v in (np.nan, np.inf, -np.inf):
        raises(ValueError, lambda: Lm_Seg(x, y, v), "brk=%r" % v)
    raises(ValueError, lambda: Lm_Seg(x, y, b, weights=np.ones(x.size - 1)),
           "short weights")
    bad = np.ones(x.size)
    bad[c["pos"] % x.size] = np.nan
    raises(ValueError, lambda: Lm_Seg(x, y, b, weights=bad), "NaN weights")
    few = np.full(x.size, np.nan)
    few[:3] = y[:3]
    raises(Warning, lambda: Lm_Seg(x, few, b), "three points")
    return True


@facet(st.fixed_dictionaries(dict(
    img=gen.fields(gen.shapes2(24, 48), kinds=["powerlaw", "noise", "blobs"],
                   nan=(0,), offsets=(0.,), scales=(1.,)),
    frac=st.integers(25, 75), unit=st.sampled_from(["log", "pix", "deg"]),
    low=st.sampled_from([None, 0.06]), high=st.sampled_from([None, 0.4]),
    minpts=st.sampled_from([None, None, 0, 1]))),
    quick=100, thorough=2000,
    rule="breaks of a power spectrum are those of the segmented fit to its "
         "logged, clipped points")
def through_pspec(c):
    a = gen.build(c["img"])
    hdr = gen.header2(a.shape, pix=0.01)
    s = PowerSpectrum(a, header=hdr)
    s.compute_pspec()
    s.compute_radial_pspec()
    f = s.freqs.value
    lo = 2. / max(a.shape) if c["low"] is None else c["low"]
    hi = f.max() if c["high"] is None else c["high"]
    if np.abs(f - lo).min() < 1e-9 or \
            (c["high"] is not None and np.abs(f - hi).min() < 1e-9):
        return False
    keep = (f > lo) & (f <= hi)
    x, y = np.log10(f[keep]), np.log10(s.ps1D[keep])
    ok = np.isfinite(y)
    if ok.sum() < 8:
        return False
    xb = x[ok].min() + np.ptp(x[ok]) * c["frac"] / 100.
    ref_ = Lm_Seg(x, y, xb)
    ref_.fit_model(verbose=False)
    kw = {}
    if c["low"]:
        kw["low_cut"] = c["low"] / u.pix
    if c["high"]:
        kw["high_cut"] = c["high"] / u.pix
    if c["unit"] == "log":
        kw.update(brk=xb, log_break=True)
    elif c["unit"] == "pix":
        kw.update(brk=10 ** xb / u.pix)
    else:
        kw.update(brk=10 ** xb / 0.01 / u.deg)
    mins = 10
    if c["minpts"] is not None and not ref_.break_fail_flag:
        # just enough, or one more than there are
        mins = int((x < ref_.brk).sum()) + c["minpts"]
        kw["min_fits_pts"] = mins
        if np.abs(x - ref_.brk).min() < 1e-6:
            return False
    s.fit_pspec(**kw)
    if ref_.break_fail_flag or (x < ref_.brk).sum() < mins:
        require(s.brk is None, "break kept although the fit rejects it")
        p = ref.ols(x[ok], y[ok])[0]
        close(s.slope, p[1], "slope after a rejected break", rtol=1e-7,
              scale=abs(p[1]) + .1)
        return False
    require(s.brk is not None, "break dropped")
    if mins == 10 and abs((x < ref_.brk).sum() - 10) < 1:
        return False
    close(s.brk.to(1 / u.pix).value, 10 ** ref_.brk, "break", rtol=1e-5)
    close(s.slope, ref_.slopes, "slopes", rtol=1e-5,
          scale=np.abs(ref_.slopes).max())
    close(s.slope_err, ref_.slope_errs, "slope errors", rtol=1e-4)
    # a later fit without a break forgets this one
    for k in ("brk", "log_break", "min_fits_pts"):
        kw.pop(k, None)
    s.fit_pspec(**kw)
    p = ref.ols(x[ok], y[ok])[0]
    require(s.brk is None and np.size(s.slope) == 1 and s.brk_err is None,
            "break of an earlier fit kept")
    close(s.slope, p[1], "slope after a fit with a break", rtol=1e-7,
          scale=abs(p[1]) + .1)
    return True


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(["PowerSpectrum", "Wavelet", "DeltaVariance",
                          "VCS"]),
    img=gen.fields(gen.shapes2(40, 64), kinds=["powerlaw", "noise", "blobs"],
                   nan=(0,), offsets=(0.,), scales=(1.,)),
    frac=st.integers(25, 75), boot=st.booleans(),
    weighted=st.booleans())),
    quick=80, thorough=2000,
    rule="slopes, break and their (bootstrapped) errors of a broken fit are "
         "those of the segmented fit to the statistic's own points")
def through_statistics(c):
    a = gen.build(c["img"])
    hdr = gen.header2(a.shape, pix=0.01)
    bs = dict(bootstrap=c["boot"])
    if c["boot"]:
        bs["bootstrap_kwargs"] = dict(nboot=400, seed=c["img"]["seed"] % 999)
    w = None
    mins = 3
    unit = u.pix
    if c["stat"] == "PowerSpectrum":
        s = PowerSpectrum(a, header=hdr)
        s.compute_pspec()
        s.compute_radial_pspec()
        f, y = s.freqs.value, s.ps1D
        keep = f > 2. / max(a.shape)
        unit = 1 / u.pix
        mins = 10

        def fit(brk):
            s.fit_pspec(brk=10 ** brk / u.pix, **bs)
    elif c["stat"] == "Wavelet":
        s = Wavelet(a, header=hdr, num=25)
        s.compute_transform(show_progress=False)
        f, y = s.scales.to(u.pix).value, s.values
        keep = np.ones(f.size, dtype=bool)
        if c["weighted"]:
            w = (0.434 * s.stddev / s.values) ** -2

        def fit(brk):
            s.fit_transform(brk=10 ** brk * u.pix,
                            weighted_fit=c["weighted"], **bs)
    elif c["stat"] == "DeltaVariance":
        s = DeltaVariance(a, header=hdr, nlags=20)
        s.compute_deltavar(show_progress=False)
        f, y = s.lags.to(u.pix).value, s.delta_var
        keep = np.ones(f.size, dtype=bool)
        w = s.delta_var_error ** -2

        def fit(brk):
            s.fit_plaw(brk=10 ** brk * u.pix, verbose=False, **bs)
    else:
        n = a.shape[0]
        cube = a.reshape(a.shape + (1,)) + 0.1 * np.random.RandomState(
            c["img"]["seed"] % 2 ** 32).normal(size=a.shape + (2,))
        s = VCS(cube, header=gen.header3(cube.shape))
        s.compute_pspec()
        f, y = s.freqs.value[1:n // 2], s.ps1D[1:n // 2]
        keep = f > 2. / n
        mins = 0

        def fit(brk):
            s.fit_pspec(breaks=10 ** brk, log_break=False, low_cut=2. / n /
                        u.pix, bootstrap=c["boot"],
                        **bs.get("bootstrap_kwargs", {}))
    if keep.sum() < 12 or np.abs(f[~keep] - 2. / max(a.shape)).size and \
            np.abs(f - 2. / max(a.shape)).min() < 1e-9 and \
            c["stat"] == "PowerSpectrum":
        return False
    x, y = np.log10(f[keep]), np.log10(y[keep])
    w = None if w is None else w[keep]
    if not np.isfinite(y).all() or (w is not None and
                                    not np.isfinite(w).all()):
        return False
    xb = x.min() + np.ptp(x) * c["frac"] / 100.
    m = Lm_Seg(x, y, xb, weights=w)
    m.fit_model(verbose=False)
    fit(xb)
    err = s.slope_err
    if m.break_fail_flag or (x < m.brk).sum() < mins:
        p, rank, A = lsq([np.ones_like(x), x], y, w)
        sc = abs(p[1]) + .1
        close(np.ravel(s.slope), [p[1]], "slope without a break", rtol=1e-6,
              scale=sc)
        if c["boot"]:
            want = sampled(A, y, w, p, np.array([[0., 1.]]))
            close(np.ravel(err), want, "bootstrapped error without a break",
                  rtol=.25, atol=1e-9 * sc)
        return c["boot"]
    if np.abs(x - m.brk).min() < 1e-9:
        return False
    sc = np.abs(m.slopes).max() + .1
    close(s.slope, m.slopes, "slopes", rtol=1e-5, scale=sc)
    if c["stat"] == "VCS":
        brk, brk_err = s.brk, s.brk_err
        close(brk, m.brk, "break", rtol=1e-6, scale=1)
        fac = 1.
    else:
        brk, brk_err = s.brk.to(unit).value, s.brk_err.to(unit).value
        close(brk, 10 ** m.brk, "break", rtol=1e-5)
        fac = np.log(10) * brk
    if not c["boot"]:
        close(err, m.slope_errs, "slope errors", rtol=1e-4, atol=1e-9 * sc)
        close(brk_err, fac * m.brk_err, "error of the break", rtol=1e-4)
        return True
    d = x - m.brk
    p, rank, A = lsq([np.ones_like(x), x, np.maximum(d, 0),
                      -(d > 0).astype(float)], y, w)
    if rank < 4 or min((d > 0).sum(), (d < 0).sum()) < 3:
        return False
    want = sampled(A, y, w, p, np.array([[0, 1., 0, 0], [0, 1., 1., 0],
                                         [0, 0, 0, 1.], [0, 0, 1., 0]]))
    close(err, want[:2], "bootstrapped slope errors", rtol=.25)
    if want[3] < .1 * abs(p[2]) and abs(p[3]) < want[2]:
        close(brk_err, fac * want[2] / abs(p[2]),
              "bootstrapped error of the break", rtol=.3)
    return True


def sampled(A, y, w, p, lin):
    """Spread of ``lin . params`` under resampling of the (weighted)
    residuals of a least-squares fit."""
    sw = np.ones_like(y) if w is None else np.sqrt(w)
    H = lin.dot(np.linalg.pinv(A * sw[:, None]))
    return np.sqrt(((y - A.dot(p)) * sw).var() * (H ** 2).sum(axis=1))
