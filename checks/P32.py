"""The numerical helper functions follow their definitions."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises


def mod():
    from turbustat.statistics import stats_utils
    return stats_utils


def vec(rng, n, nan=0., scale=1., loc=0., ints=False):
    a = rng.normal(size=n) * scale + loc
    if ints:
        a = np.round(a * 3)
    if nan:
        a[rng.rand(*a.shape) < nan] = np.nan
        if np.isfinite(a).sum() < 3:
            a.flat[:3] = [1., 2.5, -1.]
    return a


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, rows=st.integers(1, 5), n=st.integers(2, 30),
    pad=st.integers(0, 4), k=st.sampled_from([1., 0.02, 70.]))), quick=200,
    thorough=5000, rule="cumulative sums of each row, ending at one, for "
                        "rows of any normalisation and padded with NaN")
def row_ecdfs(c):
    from turbustat.statistics.dendrograms.mecdf import mecdf
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = rng.rand(c["rows"], c["n"] + c["pad"]) * c["k"]
    if c["pad"]:
        a[0, -c["pad"]:] = np.nan
    keep = a.copy()
    e = mecdf(a)
    require(np.array_equal(a, keep, equal_nan=True), "input changed")
    require(e.shape == a.shape, "shape")
    for x, y in zip(a, e):
        ok = np.isfinite(x)
        close(y[ok], np.cumsum(x[ok]) / x[ok].sum(), "ECDF", rtol=1e-9)
        close(y[ok][-1], 1., "end of the ECDF", rtol=1e-9)
    return c["rows"] > 1


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, n=st.integers(3, 60), nan=st.sampled_from([0., 0.2]),
    scale=st.sampled_from([1e-6, 1., 1e5]), loc=st.sampled_from(
        [0., 3., -1e3]), two=st.booleans(), dt=st.sampled_from(
            ["f8", "f4", ">f8"]), a=st.floats(0.1, 20.),
    b=st.floats(-50., 50.))), quick=300, thorough=20000,
    rule="normalisations follow their definitions, keep NaNs, and are "
         "invariant to the changes they remove")
def normalisations(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x = vec(rng, (c["n"], 3) if c["two"] else c["n"], c["nan"], c["scale"],
            c["loc"]).astype(c["dt"])
    tol = dict(rtol=2e-3 if c["dt"] == "f4" else 1e-9,
               atol=2e-3 if c["dt"] == "f4" else 1e-7)
    x0 = x.copy()
    d = x.astype("f8")
    ok = np.isfinite(d)
    v = d[ok]
    m, sd, lo, hi = v.mean(), v.std(), v.min(), v.max()
    big = max(abs(v).max(), 1e-300)
    if sd < 1e-4 * big or abs(m) < 1e-3 * sd:
        return False
    want = {"standardize": (d - m) / sd, "center": d - m,
            "normalize": (d - lo) / (hi - lo), "normalize_by_mean": d / m}
    for k, w in want.items():
        if c["dt"] == "f4" and (sd < 1e-2 * big or abs(m) < 0.1 * sd):
            break
        for got in (getattr(s, k)(x), s.data_normalization(x, norm_type=k)):
            close(np.asarray(got, dtype=float), w, k, rtol=tol["rtol"],
                  atol=tol["atol"] * (sd if k == "center" else 1.))
    close(s.data_normalization(x), s.standardize(x), "default")
    require(np.array_equal(x, x0, equal_nan=True), "the data were changed")
    y = c["a"] * d + c["b"] * c["scale"]
    close(s.standardize(y), want["standardize"], "standardize(a x + b)",
          rtol=1e-6, atol=1e-6)
    close(s.normalize(y), want["normalize"], "normalize(a x + b)",
          rtol=1e-6, atol=1e-6)
    close(s.normalize_by_mean(c["a"] * d), want["normalize_by_mean"],
          "normalize_by_mean(a x)", rtol=1e-9)
    raises(ValueError, lambda: s.data_normalization(x, norm_type="other"),
           "an unknown normalisation is accepted")
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, n=st.integers(2, 40), w=st.floats(0.01, 5.),
    zeros=st.booleans(), nan=st.booleans())), quick=300, thorough=20000,
    rule="hellinger and kl_divergence follow their definitions")
def divergences(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    p, q = rng.gamma(1., size=c["n"]), rng.gamma(1., size=c["n"])
    if c["zeros"]:
        q[rng.randint(c["n"])] = 0.
        p[rng.randint(c["n"])] = 0.
    p, q = p / p.sum(), q / q.sum()
    keep = np.ones(c["n"], dtype=bool)
    pn, qn = p.copy(), q.copy()
    if c["nan"]:
        k = rng.randint(c["n"], size=2)
        pn[k[0]] = np.nan
        qn[k[1]] = np.nan
        keep[k] = False
    d2 = ((np.sqrt(p) - np.sqrt(q)) ** 2)[keep].sum()
    # the bin width is the factor the function documents by its use
    close(s.hellinger(pn, qn, bin_width=c["w"]) / s.hellinger(pn, qn)
          if d2 > 0 else c["w"], c["w"], "bin width", rtol=1e-9)
    close(s.hellinger(pn, qn), np.sqrt(d2 / 2.), "hellinger", rtol=1e-9)
    close(s.hellinger(qn, pn), np.sqrt(d2 / 2.), "hellinger", rtol=1e-9)
    close(s.hellinger(pn, pn), 0., "hellinger of equal distributions")
    ref = 0.
    for a, b in zip(p[keep], q[keep]):
        if a > 0 and b > 0:
            ref += a * np.log(a / b)
    close(s.kl_divergence(pn, qn), ref, "kl_divergence", rtol=1e-9,
          atol=1e-12)
    close(s.kl_divergence(pn, pn), 0., "kl_divergence(p, p)", atol=1e-13)
    if not c["zeros"] and not c["nan"]:
        require(s.kl_divergence(p, q) >= -1e-12, "negative divergence")
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, n1=st.integers(4, 300), n2=st.integers(4, 300),
    nbins=st.sampled_from([None, None, 2, 5, 30]), log=st.booleans(),
    nan=st.sampled_from([0., 0.1]), cen=st.booleans(),
    lo=st.sampled_from([None, None, "in", "out"]),
    hi=st.sampled_from([None, None, "in", "out"]))), quick=300,
    thorough=20000,
    rule="common_histogram_bins covers both datasets (within the limits) "
         "with equal (logarithmic) steps, whatever the order")
def bins(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = vec(rng, c["n1"], c["nan"])
    b = vec(rng, c["n2"], c["nan"], 2., 1.)
    if c["log"]:
        a, b = np.exp(a), np.exp(b)
    both = np.concatenate([a, b])
    both = both[np.isfinite(both)]
    lo, hi = both.min(), both.max()
    kw = {}
    mid = np.median(both)
    if c["lo"] == "in":
        kw["min_val"] = lo = 0.5 * (lo + mid)
    elif c["lo"] == "out":
        kw["min_val"] = lo - abs(lo) - 1.
    if c["hi"] == "in":
        kw["max_val"] = hi = 0.5 * (hi + mid)
    elif c["hi"] == "out":
        kw["max_val"] = hi + abs(hi) + 1.
    if not hi > lo * (1 + 1e-6) if lo > 0 else not hi > lo:
        return False
    n = c["nbins"]
    args = dict(nbins=n, logscale=c["log"], return_centered=c["cen"], **kw)
    got = s.common_histogram_bins(a, b, **args)
    rev = s.common_histogram_bins(b, a, **args)
    if c["cen"]:
        got, cen = got
        rev = rev[0]
        close(cen, 0.5 * (got[1:] + got[:-1]), "centers")
    close(rev, got, "bins with the datasets exchanged")
    if n is None:
        n = int(np.sqrt((c["n1"] + c["n2"]) / 2.))
    require(len(got) == n, "%d edges, expected %d" % (len(got), n))
    close(got[0], lo, "first edge", rtol=1e-9)
    close(got[-1], hi, "last edge", rtol=1e-9)
    x = np.log(got) if c["log"] else got
    close(np.diff(x), np.full(n - 1, (x[-1] - x[0]) / (n - 1)), "steps",
          rtol=1e-6, atol=1e-12)
    raises(ValueError, lambda: s.common_histogram_bins(a[:, None], b),
           "2D data are accepted")
    return True


def on_ellipse(xy, p):
    """Distance in units of the ellipse: 1 on it"""
    xc, yc, a, b, t = p
    x, y = xy[:, 0] - xc, xy[:, 1] - yc
    u1 = x * np.cos(t) + y * np.sin(t)
    v1 = -x * np.sin(t) + y * np.cos(t)
    return np.hypot(u1 / a, v1 / b)


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, xc=st.floats(-20, 20), yc=st.floats(-20, 20),
    a=st.floats(0.5, 20), ratio=st.floats(0.15, 0.97),
    theta=st.floats(0., 3.14), n=st.integers(8, 60), swap=st.booleans(),
    noise=st.sampled_from([0., 0.01]), arc=st.sampled_from([1., 1., 0.7]))),
    quick=150, thorough=4000,
    rule="ellipse fits recover the ellipse the points lie on; residuals are "
         "the distances to it")
def ellipse(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a, b = c["a"], c["a"] * c["ratio"]
    if c["swap"]:
        a, b = b, a
    p = (c["xc"], c["yc"], a, b, c["theta"])
    t = np.sort(rng.rand(c["n"])) * 2 * np.pi * c["arc"]
    if np.max(np.diff(np.append(t, t[0] + 2 * np.pi))) > 3. or \
            np.min(np.diff(t)) < 1e-4:
        return False
    # The fit works with 4th powers of the coordinates: an ellipse that is
    # small next to its distance from the origin is poorly determined
    far = max(abs(c["xc"]), abs(c["yc"]), a, b) / min(a, b)
    if far > 30.:
        return False
    tol = 2e-2
    m = s.EllipseModel()
    xy = m.predict_xy(t, params=p)
    require(xy.shape == (c["n"], 2), "shape of predict_xy %s" % (xy.shape,))
    close(on_ellipse(xy, p), np.ones(c["n"]), "predict_xy", rtol=1e-9)
    # the angle starts at the first axis
    x0 = m.predict_xy(np.zeros(1), params=p)[0]
    close(x0, [p[0] + a * np.cos(p[4]), p[1] + a * np.sin(p[4])],
          "predict_xy(0)", rtol=1e-9, atol=1e-9)
    r = min(a, b)
    noisy = xy + rng.normal(size=xy.shape) * c["noise"] * r
    require(m.estimate(noisy) is True, "no ellipse found")
    q = m.params
    require(len(q) == 5, "parameters %s" % (q,))
    fine = m.predict_xy(np.linspace(0, 2 * np.pi, 40))
    if c["noise"] == 0.:
        close(on_ellipse(fine, p), np.ones(40), "fitted ellipse", rtol=tol)
        close(sorted(q[2:4]), sorted([a, b]), "axes", rtol=tol)
        # the angle is that of the fitted major axis
    else:
        if c["arc"] == 1. and c["n"] >= 20:
            close(on_ellipse(fine, p), np.ones(40), "fitted ellipse",
                  rtol=0.3, atol=0.3)
    # residuals: distance to the fitted ellipse
    if c["ratio"] > 0.3:
        pts = noisy + rng.normal(size=xy.shape) * 0.05 * r
        got = np.asarray(m.residuals(pts))
        dense = m.predict_xy(np.linspace(0, 2 * np.pi, 20001))
        ref = np.array([np.hypot(*(dense - w).T).min() for w in pts])
        close(got, ref, "residuals", rtol=0., atol=2e-3 * max(a, b))
    # moving and scaling the points moves and scales the ellipse
    if c["noise"] == 0.:
        m2 = s.EllipseModel()
        m2.estimate(noisy * 2. + np.array([3., -1.]))
        close(on_ellipse((m2.predict_xy(np.linspace(0, 6, 20)) -
                          np.array([3., -1.])) / 2., p), np.ones(20),
              "ellipse of moved points", rtol=tol)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, a=st.floats(2., 10.), ratio=st.floats(0.4, 0.8),
    theta=st.floats(0.2, 2.9), n=st.integers(25, 60),
    noise=st.sampled_from([0.005, 0.02]),
    alpha=st.sampled_from([0.6827, 0.3, 0.95]))), quick=24, thorough=300,
    rule="errors of ellipse parameters come from the percentiles of the "
         "resampled fits, grow with the scatter and the requested interval")
def ellipse_errors(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a, b = c["a"], c["a"] * c["ratio"]
    t = np.linspace(0, 2 * np.pi, c["n"], endpoint=False)
    m = s.EllipseModel()
    raises((AttributeError, ValueError),
           lambda: s.EllipseModel().estimate_stderrs(np.zeros((9, 2))),
           "errors before a fit")
    xy = m.predict_xy(t, params=(0.3, -0.2, a, b, c["theta"]))
    dev = rng.normal(size=xy.shape)

    def fit(f, alpha):
        m = s.EllipseModel()
        pts = xy + dev * f * b
        require(m.estimate(pts), "no ellipse found")
        np.random.seed(c["seed"] % 2 ** 32)
        q = tuple(m.params)
        m.estimate_stderrs(pts, niters=60, alpha=alpha)
        require(tuple(m.params) == q, "the parameters changed")
        return m
    m = fit(c["noise"], c["alpha"])
    e = np.asarray(m.param_errs)
    require(e.shape == (5,) and np.isfinite(e).all() and (e > 0).all(),
            "errors %s" % e)
    close(e, 0.5 * (m.percentiles[1] - m.percentiles[0]),
          "half of the interval", rtol=1e-9)
    big = fit(c["noise"] * 3, c["alpha"]).param_errs
    require(np.all(big[:4] > 1.5 * e[:4]) and np.all(big[:4] < 6 * e[:4]),
            "errors %s, and %s for three times the scatter" % (e, big))
    # of the order of scatter / sqrt(n)
    ref = c["noise"] * b / np.sqrt(c["n"])
    if c["alpha"] > 0.6 and c["alpha"] < 0.7:
        require(np.all(e[:4] > 0.15 * ref) and np.all(e[:4] < 15 * ref),
                "errors %s for a scatter of %s" % (e, ref))
    wide = fit(c["noise"], 0.99).param_errs
    require(np.all(wide >= e * (1 - 1e-9)), "wider interval, smaller errors")
    # the widths of PCA contours: 1/e of an autocorrelation
    from turbustat.statistics.pca.width_estimate import fit_2D_ellipse
    np.random.seed(c["seed"] % 2 ** 32)
    yw, xw, ye, xe, _ = fit_2D_ellipse(xy + dev * c["noise"] * b, niters=60,
                                       alpha=c["alpha"])
    close(np.array([xw, yw]) * np.sqrt(2), m.params[2:4], "widths",
          rtol=1e-9)
    close(np.array([xe, ye]) * np.sqrt(2), e[2:4], "errors of the widths",
          rtol=.5)
    for bad in (-0.1, 1., 1.5):
        raises(ValueError, lambda: m.estimate_stderrs(xy, alpha=bad),
               "alpha=%s" % bad)
    return True


@facet(st.fixed_dictionaries(dict(
    p1=st.floats(-5, 0), p2=st.floats(-5, 0), rot1=st.sampled_from(
        [0., 33., -120.]), rot2=st.sampled_from([0., 33., -120.]),
    cunit=st.sampled_from(["deg", "arcsec"]), nd=st.sampled_from([2, 3]),
    proj=st.sampled_from(["CAR", "TAN", "SIN"]),
    skew=st.booleans())), quick=120, thorough=4000,
    rule="common_scale is the ratio of the pixel sizes, for rotated grids, "
         "any units and cubes; grids that are not square are refused")
def scale(c):
    from astropy.wcs import WCS
    from checks.P03 import header
    s = mod()
    g1 = dict(pix=10 ** c["p1"], rot=c["rot1"], cd=True, cunit="deg",
              proj="CAR")
    g2 = dict(pix=10 ** c["p2"], rot=c["rot2"], cd=False, cunit=c["cunit"],
              proj=c["proj"])
    sh = (5, 8, 9)[3 - c["nd"]:]
    w1, w2 = WCS(header(g1, sh)), WCS(header(g2, sh))
    close(s.common_scale(w1, w2), g2["pix"] / g1["pix"], "scale", rtol=1e-9)
    close(s.common_scale(w2, w1), g1["pix"] / g2["pix"], "scale", rtol=1e-9)
    close(s.common_scale(w1, w1), 1., "scale", rtol=1e-12)
    if c["skew"] and c["nd"] == 2:
        h = gen.header2(sh, pix=0.1)
        h["CDELT1"] = -0.2
        raises(Exception, lambda: s.common_scale(WCS(h), w2),
               "a grid that is not square is accepted")
        raises(Exception, lambda: s.common_scale(w1, WCS(h)),
               "a grid that is not square is accepted")
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, shape=st.lists(st.integers(3, 12), min_size=1,
                                  max_size=3), axis=st.integers(0, 2),
    shift=st.integers(-14, 14), frac=st.floats(-3., 3.),
    nan=st.booleans())), quick=300, thorough=20000,
    rule="fourier_shift moves by whole pixels as a roll (NaNs move along), "
         "by fractions exactly for band-limited data, and shifts add up; "
         "pixel_shift is a roll")
def shifts(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    shape = tuple(c["shape"])
    ax = c["axis"] % len(shape)
    x = rng.normal(size=shape)
    if c["nan"]:
        x[rng.rand(*shape) < 0.15] = np.nan
    x0 = x.copy()
    want = np.roll(x, c["shift"], axis=ax)
    close(s.fourier_shift(x, c["shift"], axis=ax), want, "fourier_shift",
          rtol=1e-9, atol=1e-10)
    require(np.array_equal(s.pixel_shift(x, c["shift"], axis=ax), want,
                           equal_nan=True), "pixel_shift differs")
    require(np.array_equal(s.pixel_shift(x, float(c["shift"]), axis=ax),
                           want, equal_nan=True), "pixel_shift differs")
    require(np.array_equal(x, x0, equal_nan=True), "the data were changed")
    # a cosine below the Nyquist frequency
    n = shape[ax]
    k = rng.randint(0, (n - 1) // 2 + 1)
    ph, amp = rng.rand() * 6, rng.rand(*[
        m if i != ax else 1 for i, m in enumerate(shape)]) + 0.5
    idx = np.arange(n).reshape([-1 if i == ax else 1
                                for i in range(len(shape))])
    y = amp * np.cos(2 * np.pi * k * idx / n + ph) + 1.
    f = c["frac"]
    close(s.fourier_shift(y, f, axis=ax),
          amp * np.cos(2 * np.pi * k * (idx - f) / n + ph) + 1.,
          "fourier_shift by %s" % f, rtol=1e-8, atol=1e-8)
    close(s.fourier_shift(s.fourier_shift(y, f, axis=ax), -f, axis=ax), y,
          "shifted back", rtol=1e-8, atol=1e-8)
    return c["shift"] % n != 0


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, shape=st.lists(st.integers(1, 8), min_size=1,
                                  max_size=3),
    pads=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)),
                  min_size=3, max_size=3), nans=st.booleans())), quick=200,
    thorough=10000,
    rule="padwithzeros and padwithnans pad like a constant, for any widths")
def padding(c):
    s = mod()
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x = rng.normal(size=tuple(c["shape"]))
    pads = [tuple(p) for p in c["pads"]][:x.ndim]
    fn = s.padwithnans if c["nans"] else s.padwithzeros
    want = np.pad(x, pads, "constant",
                  constant_values=np.nan if c["nans"] else 0.)
    require(np.array_equal(np.pad(x, pads, fn), want, equal_nan=True),
            "padding by %s" % (pads,))
    return any(sum(p) for p in pads)


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, n=st.integers(6, 40), slope=st.floats(-3, 3),
    const=st.floats(-5, 5), ex=st.floats(0.01, 0.5), ey=st.floats(0.01, 0.5),
    k=st.floats(0.2, 8.))), quick=120, thorough=4000,
    rule="leastsq_linear recovers lines, weighs points by their errors and "
         "scales with the data")
def lines(c):
    from turbustat.statistics.fitting_utils import leastsq_linear
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x = rng.rand(c["n"]) * 4. - 1.
    if np.ptp(x) < 1.:
        return False
    slope, const = round(c["slope"], 4), round(c["const"], 4)
    y = slope * x + const
    ex = c["ex"] * (0.5 + rng.rand(c["n"]))
    ey = c["ey"] * (0.5 + rng.rand(c["n"]))
    p, e = leastsq_linear(x, y, ex, ey)
    require(len(p) == 2 and len(e) == 2, "parameters %s" % (p,))
    close(p, [slope, const], "exact line", rtol=1e-5, atol=1e-5)
    close(e, [0., 0.], "errors of an exact line", atol=1e-4)
    yn = y + rng.normal(size=c["n"]) * ey
    # negligible errors in x: weighted least squares
    p, e = leastsq_linear(x, yn, np.full(c["n"], 1e-7), ey)
    X = np.vstack([x, np.ones(c["n"])]).T
    A = X / ey[:, None]
    cov = np.linalg.inv(A.T.dot(A))
    ref = cov.dot(A.T.dot(yn / ey))
    close(p, ref, "weighted least squares", rtol=1e-4, atol=1e-4)
    chi = (((yn - X.dot(ref)) / ey) ** 2).sum() / (c["n"] - 2)
    close(e, np.sqrt(np.diag(cov) * chi), "errors", rtol=0.1)
    # exchange of the axes inverts the line
    if abs(slope) * x.std() > 3. * c["ey"] and c["ex"] < 0.2:
        xn = x + rng.normal(size=c["n"]) * ex * 0.1
        a = leastsq_linear(xn, yn, ex, ey)[0]
        b = leastsq_linear(yn, xn, ey, ex)[0]
        if abs(a[0]) > 0.2 and abs(b[0]) > 0.05:
            close([1. / b[0], -b[1] / b[0]], a, "line with exchanged axes",
                  rtol=1e-2, atol=1e-2)
    # scaling
    q = leastsq_linear(x, yn * c["k"], ex, ey * c["k"])[0]
    p = leastsq_linear(x, yn, ex, ey)[0]
    close(q, p * c["k"], "line for scaled data", rtol=1e-2, atol=1e-2)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, slope=st.floats(0.3, 3.), const=st.floats(-2, 2),
    ex=st.sampled_from([0.01, 0.05, 0.1]), ey=st.sampled_from([0.02, 0.1]))),
    quick=12, thorough=100,
    rule="bayes_linear recovers lines within the errors and keeps to its "
         "definition of the intervals")
def bayes(c):
    from turbustat.statistics.fitting_utils import bayes_linear
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x = np.linspace(-1., 3., 25)
    ey = np.full(25, c["ey"])
    ex = np.full(25, c["ex"])
    y = c["slope"] * (x + rng.normal(size=25) * ex) + c["const"] + \
        rng.normal(size=25) * ey
    np.random.seed(c["seed"] % 2 ** 32)
    p, iv, samp = stats.quiet(bayes_linear, x, y, ex, ey, nBurn=300,
                              nSample=300, return_samples=True)
    require(samp.shape[0] == 2, "samples %s" % (samp.shape,))
    close(p, np.median(samp, axis=1), "medians", rtol=1e-9)
    close(iv, [np.percentile(v, [15.9, 84.1]) for v in samp], "intervals",
          rtol=1e-9)
    np.random.seed(c["seed"] % 2 ** 32)
    out = stats.quiet(bayes_linear, x, y, ex, ey, nBurn=10, nSample=20,
                      conf_interval=[5., 95.])
    require(len(out) == 2, "%d values without samples" % len(out))
    require(np.all(out[1][:, 0] <= out[0]) and
            np.all(out[1][:, 1] >= out[0]), "interval without the median")
    samp = stats.quiet(bayes_linear, x, y, ex, ey, nBurn=10, nSample=20,
                       conf_interval=[2., 70.], return_samples=True)
    close(samp[1], [np.percentile(v, [2., 70.]) for v in samp[2]],
          "intervals other than the standard ones", rtol=1e-9)
    sig = np.hypot(c["ey"], c["ex"] * c["slope"])
    sl = sig / np.sqrt(((x - x.mean()) ** 2).sum())
    # 12 standard errors, as this is a random search
    require(abs(p[0] - c["slope"]) < 12 * sl, "slope %s, expected %s" % (
        p[0], c["slope"]))
    require(abs(p[1] + p[0] * x.mean() - c["const"] - c["slope"] * x.mean())
            < 12 * sig / 5., "line at the mean")
    width = iv[0][1] - iv[0][0]
    require(1.2 * sl < width < 3.4 * sl, "interval of the slope %s for an "
            "error of %s" % (width, sl))
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, n=st.integers(8, 30), weighted=st.booleans(),
    outlier=st.sampled_from([None, 0, -1]), bseed=st.integers(0, 10 ** 6))),
    quick=48, thorough=500,
    rule="residual_bootstrap resamples all residuals of the (weighted) fit: "
         "its errors are those of the fit")
def bootstrap(c):
    import statsmodels.api as sm
    from turbustat.statistics.fitting_utils import residual_bootstrap
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x = np.sort(rng.rand(c["n"])) * 2.
    w = 10 ** rng.uniform(-1, 3, size=c["n"])
    y = 2. - 1.3 * x + rng.normal(size=c["n"]) / (
        np.sqrt(w) if c["weighted"] else 1.)
    if c["outlier"] is not None:
        y[c["outlier"]] += 4. / (np.sqrt(w[c["outlier"]])
                                 if c["weighted"] else 1.)
    X = sm.add_constant(x)
    f = sm.WLS(y, X, weights=w).fit() if c["weighted"] else \
        sm.OLS(y, X).fit()
    state = np.random.get_state()[1].copy()
    got = residual_bootstrap(f, nboot=600, seed=c["bseed"])
    require(np.array_equal(np.random.get_state()[1], state),
            "the global random state changed")
    require(np.array_equal(got, residual_bootstrap(f, nboot=600,
                                                   seed=c["bseed"])),
            "the same seed gives other errors")
    samp = residual_bootstrap(f, nboot=600, seed=c["bseed"],
                              return_samps=True)
    close(got, samp.std(axis=0), "standard deviation of the samples",
          rtol=1e-9)
    # expectation of the resampled errors: residuals drawn with replacement
    s = np.sqrt(w) if c["weighted"] else np.ones(c["n"])
    Xw = X * s[:, None]
    r = s * (y - X.dot(f.params))
    H = np.linalg.inv(Xw.T.dot(Xw)).dot(Xw.T)
    want = np.sqrt(r.var() * (H ** 2).sum(axis=1))
    close(got / want, np.ones(2), "bootstrapped errors (in units of the "
          "expected ones)", rtol=0.25)
    mean = f.params + r.mean() * H.sum(axis=1)
    require(np.all(np.abs(samp.mean(axis=0) - mean) < 0.3 * want),
            "the samples are centred on %s, expected %s" % (
                samp.mean(axis=0), mean))
    return c["weighted"]


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, shape=st.tuples(st.integers(6, 14), st.integers(6, 14)),
    k=st.sampled_from([1, 3, 5]), k2=st.sampled_from([1, 3, 5]),
    boundary=st.sampled_from(["wrap", "fill"]), fftw=st.booleans(),
    threads=st.integers(1, 3))), quick=150, thorough=6000,
    rule="convolution_wrapper is the convolution with the normalised kernel")
def convolution(c):
    from turbustat.statistics.convolve_wrapper import convolution_wrapper
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = rng.normal(size=tuple(c["shape"]))
    k = rng.rand(c["k"], c["k2"]) + 0.1
    got = stats.quiet(convolution_wrapper, a, k, boundary=c["boundary"],
                      use_pyfftw=c["fftw"], threads=c["threads"],
                      fill_value=0.)
    kn = k / k.sum()
    r, r2 = c["k"] // 2, c["k2"] // 2
    p = np.pad(a, ((r, r), (r2, r2)), "wrap" if c["boundary"] == "wrap"
               else "constant")
    want = np.zeros_like(a)
    for i in range(c["k"]):
        for j in range(c["k2"]):
            want += kn[i, j] * p[2 * r - i:2 * r - i + a.shape[0],
                                 2 * r2 - j:2 * r2 - j + a.shape[1]]
    close(got, want, "convolution", rtol=1e-8, atol=1e-9)
    return True


@facet(st.fixed_dictionaries(dict(
    form=st.sampled_from(["none", "scalar", "pair", "three", "one", "float"]),
    hform=st.sampled_from(["none", "scalar", "pair", "three", "one", "float"]),
    a=st.floats(0.01, 0.2), b=st.floats(0.3, 0.6), unit=st.sampled_from(
        ["1/pix", "1/deg", "pix"]))), quick=60, thorough=500,
    rule="fit limits are taken for both datasets or one for each")
def limits(c):
    from turbustat.statistics.fitting_utils import check_fit_limits, clip_func
    un = u.Unit(c["unit"])

    def make(form, v):
        return {"none": None, "scalar": v * un, "pair": [v, 2 * v] * un,
                "three": [v, v, v] * un, "one": [v] * un, "float": v}[form]

    def want(form, v):
        return {"none": [None, None], "scalar": [v, v],
                "float": [v, v], "pair": [v, 2 * v]}[form]
    lo, hi = make(c["form"], c["a"]), make(c["hform"], c["b"])
    if {"three", "one"} & {c["form"], c["hform"]}:
        raises(ValueError, lambda: check_fit_limits(lo, hi),
               "an array of one or three limits is accepted")
        return True
    for got, form, v in zip(check_fit_limits(lo, hi), (c["form"],
                                                       c["hform"]),
                            (c["a"], c["b"])):
        require(len(got) == 2, "%d limits" % len(got))
        for g, w in zip(got, want(form, v)):
            if w is None:
                require(g is None, "limit %r for none" % (g,))
            elif form == "float":
                close(g, w, "limit without unit")
            else:
                require(g.unit == un, "unit %s" % g.unit)
                close(g.value, w, "limit")
    x = np.array([0.05, c["a"], 0.25, c["b"], 0.9])
    require(np.array_equal(clip_func(x, c["a"], c["b"]),
                           (x > c["a"]) & (x <= c["b"])), "clip_func")
    return True


@facet(st.fixed_dictionaries(dict(
    bmaj=st.floats(1e-5, 1.), ratio=st.floats(0.1, 1.),
    bpa=st.floats(-90, 90), full=st.booleans())), quick=60, thorough=1000,
    rule="beams are read from headers; headers without one are refused")
def beams(c):
    from astropy.io import fits
    from turbustat.io import find_beam_properties, find_beam_width
    h = gen.header2((5, 6))
    raises(Exception, lambda: stats.quiet(find_beam_properties, h),
           "a header without a beam is accepted")
    h["BMAJ"], h["BMIN"], h["BPA"] = c["bmaj"], c["bmaj"] * c["ratio"], \
        c["bpa"]
    a, b, t = stats.quiet(find_beam_properties, h)
    close([a.to(u.deg).value, b.to(u.deg).value], [c["bmaj"], c["bmaj"] *
                                                   c["ratio"]], "axes")
    d = (t.to(u.deg).value - c["bpa"]) % 180.
    require(min(d, 180. - d) < 1e-6, "position angle %s" % t)
    close(stats.quiet(find_beam_width, h).to(u.deg).value, c["bmaj"],
          "beam width")
    return True
