"""Distances between curves, surfaces, eigenvalues and histograms."""
import warnings
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from scipy.interpolate import InterpolatedUnivariateSpline
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import (
    DeltaVariance, DeltaVariance_Distance, SCF, SCF_Distance, PCA,
    PCA_Distance, Genus, Genus_Distance, Bispectrum, Bispectrum_Distance,
    StatMoments, StatMoments_Distance)
from turbustat.statistics import (GenusDistance, BiSpectrum_Distance,
                                  BiSpectrum, DendroDistance,
                                  Dendrogram_Distance)

DATA = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(18, 26), st.integers(18, 26)).map(list),
    nch=st.integers(6, 10), seed=gen.SEED,
    slope=st.sampled_from([1., 2., 3.])))
FORM = st.tuples(*[st.sampled_from(["done", "new", "data"])] * 2).map(list)


def field(d, shape, k=0):
    rng = np.random.RandomState((d["seed"] + 7919 * k) % 2 ** 32)
    a = rng.normal(size=shape)
    k2 = sum(np.meshgrid(*[np.fft.fftfreq(n) ** 2 for n in shape],
                         indexing="ij"))
    k2.flat[0] = 1.
    a = np.fft.ifftn(np.fft.fftn(a) * k2 ** (-d["slope"] / 4.)).real
    return a / a.std() + 4.


def two(d, pix=0.01):
    return field(d, d["shape"]), gen.header2(d["shape"], pix=pix)


def three(d, pix=0.01):
    sh = [d["nch"]] + [n // 2 for n in d["shape"]]
    return field(d, sh), gen.header3(sh, pix=pix)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def battery(c, dist, new, run, data, get, formula, stale=None):
    """dist(x, y), new(i), run(stat, i), data(i): i is 0 or 1 for the two
    data sets with their own settings; dist takes (x, y, i, j)."""
    s = [quiet(run, quiet(new, i), i) for i in (0, 1)]
    want = np.asarray(quiet(formula, *s), dtype=float)
    got = np.asarray(get(quiet(dist, data(0), data(1), 0, 1)), dtype=float)
    close(got, want, "distance", rtol=1e-7)
    require((got[np.isfinite(got)] >= 0).all(), "negative distance")
    close(get(quiet(dist, data(1), data(0), 1, 0)), want,
          "distance of the swapped data", rtol=1e-7)
    z = np.asarray(get(quiet(dist, data(0), data(0), 0, 0)), dtype=float)
    require((z[np.isfinite(z)] <= 1e-12).all() and np.isfinite(z).any(),
            "distance %r between equal data" % (z,))
    form = c["form"]
    xy = [quiet(run, quiet(new, i), i) if form[i] == "done" else
          quiet(new, i) if form[i] == "new" else data(i) for i in (0, 1)]
    close(get(quiet(dist, *xy, 0, 1)), want, "distance from %s statistics" %
          (form,), rtol=1e-7)
    if stale is not None:
        # computed with other lags: these are computed again
        xy = [quiet(stale, i) if form[i] == "done" else data(i)
              for i in (0, 1)]
        close(get(quiet(dist, *xy, 0, 1)), want,
              "distance from statistics at other lags", rtol=1e-7)
    return bool(np.isfinite(want).any())


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, form=FORM, pix=st.sampled_from(
        [[0.01, 0.01], [0.01, 0.01], [0.01, 0.012], [0.02, 0.016]]),
    lags=st.sampled_from([None, [3., 3.6, 4.5, 5.5, 6.5], [2., 3.5, 4.2, 5., 7.]]),
    low=st.sampled_from([None, 3.2]), high=st.sampled_from([None, 6.]),
    wts=st.booleans(), bound=st.sampled_from(["wrap", "fill"]),
    bound2=st.sampled_from([None, "wrap", "fill"]),
    diam=st.sampled_from([None, 1.5, 2.]),
    differ=st.sampled_from([0, 0, 0.1, -0.2, 0.01]))),
    quick=80, thorough=500,
    rule="delta-variance: L2 norm of the normalised log curves at lags of "
         "the same angular size")
def delvar(c):
    d = [c["a"], c["b"]]
    pix = c["pix"]
    s = pix[1] / pix[0]
    half = [min(x["shape"]) / 2. for x in d]
    if c["lags"]:
        lags = np.array(c["lags"])
    else:
        # the longest lag fits in both images
        lags = np.logspace(np.log10(3.), np.log10(min(
            half[0] / max(s, 1.), half[1] * min(s, 1.))), 25)
    own = [lags * max(s, 1.), lags / min(s, 1.)]
    # limits as angular sizes, the same for both
    unit = min(pix[0] * max(s, 1.), pix[1] / min(s, 1.)) * u.deg
    kw = dict(show_progress=False, boundary=c["bound"],
              xlow=None if c["low"] is None else c["low"] * unit,
              xhigh=None if c["high"] is None else c["high"] * unit)
    kws = [kw, kw if c["bound2"] is None else dict(kw, boundary=c["bound2"])]
    dr = {} if c["diam"] is None else dict(diam_ratio=c["diam"])

    def w(i):
        return np.abs(field(d[i], d[i]["shape"], 3)) if c["wts"] else None

    def data(i):
        return two(d[i], pix[i])

    def new(i, lags_=None):
        return DeltaVariance(data(i), weights=w(i), lags=(
            own[i] if lags_ is None else lags_) * u.pix, **dr)

    def stale(i):
        t = new(i, own[i][::-1] if c["wts"] else np.minimum(
            own[i] + 0.2 + 0.1 * np.arange(len(own[i])), half[i]))
        return t.run(**kws[i])

    def dist(x, y, i, j):
        return DeltaVariance_Distance(
            x, y, weights1=w(i), weights2=w(j),
            lags=None if c["lags"] is None else lags * u.pix,
            delvar_kwargs=kws[i], delvar2_kwargs=None
            if c["bound2"] is None else kws[j], **dr).distance_metric()

    def formula(s1, s2):
        v1, v2 = np.asarray(s1.delta_var), np.asarray(s2.delta_var)
        ok = (v1 > 0) & (v2 > 0)
        if c["low"]:
            ok &= lags >= c["low"]
        if c["high"]:
            ok &= lags <= c["high"]
        v1, v2 = np.log10(v1[ok] / v1[ok].sum()), np.log10(
            v2[ok] / v2[ok].sum())
        return [np.sqrt(((v1 - v2) ** 2).sum()), np.abs(
            s1.slope - s2.slope) / np.hypot(s1.slope_err, s2.slope_err)]
    def get(x):
        return [x.curve_distance, x.slope_distance]
    if c["lags"] is None and c["a"]["shape"] != c["b"]["shape"]:
        # the default lags of (a, a) differ
        c = dict(c)
        z = get(quiet(dist, data(0), data(0), 0, 0))
        require(max(z) <= 1e-12, "distance %r between equal data" % (z,))
    if c["differ"] and c["low"] and ((lags > c["low"] * 1.11) & (
            lags < (c["high"] or 99))).sum() >= 3:
        # other fit ranges: no curve distance
        x = quiet(lambda: DeltaVariance_Distance(
            data(0), data(1), lags=lags * u.pix, delvar_kwargs=kw,
            delvar2_kwargs=dict(kw, xlow=kw["xlow"] * (1 + c["differ"])),
            **dr).distance_metric())
        require(np.isnan(x.curve_distance), "a curve distance for different "
                "fit ranges")
        require(np.isfinite(x.slope_distance), "no slope distance")
    return battery(c, dist, new, lambda t, i: t.run(**kws[i]), data, get,
                   formula, stale)


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, form=FORM, pix=st.sampled_from(
        [[0.01, 0.01], [0.01, 0.01], [0.01, 0.012], [0.02, 0.016]]),
    size=st.sampled_from([3, 5, 7, 4, 13, 15]), weighted=st.booleans(),
    bound=st.lists(st.sampled_from(["continuous", "cut"]), min_size=2,
                   max_size=2), nosize=st.booleans())), quick=80,
    thorough=500,
    rule="SCF: root of the (1/r weighted) mean squared difference of the "
         "surfaces at lags of the same angular size")
def scf(c):
    d = [c["a"], c["b"]]
    pix = c["pix"]
    if c["size"] > 7:       # nothing is left of small images
        c = dict(c, bound=["continuous"] * 2)
    n = c["size"] - (c["size"] % 2 == 0)
    lags = np.arange(n) - n // 2
    s = pix[1] / pix[0]
    own = [lags * max(s, 1.), lags / min(s, 1.)]

    def data(i):
        return three(d[i], pix[i])

    def run(t, i):
        t.compute_surface(boundary=c["bound"][i], show_progress=False)
        t.compute_spectrum()
        return t

    def dist(x, y, i, j):
        b = [c["bound"][i], c["bound"][j]]
        return SCF_Distance(
            x, y, size=c["size"], boundary=b[0] if b[0] == b[1] else b,
            show_progress=False).distance_metric(weighted=c["weighted"])

    def formula(s1, s2):
        r = np.hypot(*np.meshgrid(lags, lags))
        w = 1. / np.where(r == 0, 1., r) if c["weighted"] else np.ones_like(r)
        return np.sqrt((w * (s1.scf_surface - s2.scf_surface) ** 2).sum()
                       / w.sum())

    if c["nosize"] and pix[0] == pix[1]:
        # computed statistics bring their own lags
        st_ = [quiet(run, quiet(SCF, data(i), size=n), i) for i in (0, 1)]
        x = quiet(SCF_Distance, *st_, show_progress=False)
        close(x.distance_metric(weighted=c["weighted"]).distance,
              formula(*st_), "distance of computed statistics", rtol=1e-7)
        raises(ValueError, lambda: quiet(
            SCF_Distance, st_[0], quiet(run, SCF(
                data(1), roll_lags=lags * 1.5 * u.pix), 1)),
            "computed statistics with other lags")
        raises(ValueError, lambda: quiet(
            SCF_Distance, st_[0], quiet(run, SCF(data(1), size=n + 2), 1)),
            "computed statistics with more lags")

    def stale(i):
        if c["weighted"]:
            return run(SCF(data(i), size=n + 2 if n < 7 else n - 2), i)
        return run(SCF(data(i), roll_lags=own[i] * 0.9 * u.pix), i)
    return battery(c, dist, lambda i: SCF(data(i), roll_lags=own[i] * u.pix),
                   run, data, lambda x: x.distance, formula,
                   stale if pix[0] != pix[1] else None)


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, form=FORM, n=st.integers(2, 6), sub=st.booleans())),
    quick=40, thorough=600,
    rule="PCA: L2 norm of the normalised leading eigenvalues (without the "
         "first when the mean is kept)")
def pca(c):
    d = [c["a"], c["b"]]
    n, sub = c["n"], c["sub"]

    def formula(s1, s2):
        sl = slice(0 if sub else 1, n)
        e1, e2 = s1.eigvals[sl], s2.eigvals[sl]
        return np.sqrt(((e1 / e1.sum() - e2 / e2.sum()) ** 2).sum())

    return battery(
        c, lambda x, y, i, j: PCA_Distance(
            x, y, n_eigs=n, mean_sub=sub).distance_metric(),
        lambda i: PCA(three(d[i])),
        lambda t, i: t.run(mean_sub=sub, n_eigs=n, decomp_only=True),
        lambda i: three(d[i]), lambda x: x.distance, formula)


def zscore(a):
    return (a - np.nanmean(a)) / np.nanstd(a)


GOPT = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["percent", "value", "none"]),
    lo=st.sampled_from([0, 5, 10]), hi=st.sampled_from([100, 90, 95]),
    min_size=st.sampled_from([4, 2, 6]), conn=st.sampled_from([1, 2])))


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, o1=GOPT, o2=GOPT, num=st.integers(6, 25),
    radii=st.sampled_from([[1.], [1., 2.], [2.]]), ang=st.booleans(),
    pix=st.sampled_from([[0.01, 0.01], [0.01, 0.01], [0.01, 0.013],
                         [0.02, 0.016]]), nan=st.sampled_from([0, 0, 9]))),
    quick=60, thorough=500,
    rule="genus: L2 norm between cubic splines of the genus per area of the "
         "standardised images, over the common thresholds")
def genus(c):
    d = [c["a"], c["b"]]
    o = [c["o1"], dict(c["o2"], kind=c["o1"]["kind"])]
    num = c["num"]

    def lims(*os):
        kind = os[0]["kind"]
        if kind == "percent":
            return dict(lowdens_percent=[x["lo"] for x in os],
                        highdens_percent=[x["hi"] for x in os])
        if kind == "value":
            return dict(min_value=[-1. - x["lo"] / 50. for x in os],
                        max_value=[1. + x["hi"] / 100. for x in os])
        return {}

    def kw(x):
        return dict(min_size=x["min_size"], connectivity=x["conn"])

    pix = c["pix"]

    def data(i):
        a, h = two(d[i], pix[i])
        if c["nan"]:
            a = a.copy()
            a[-3:, :3 + i] = np.nan
        return a, h

    def curve(i):
        k = {k: v[0] for k, v in lims(o[i]).items()}
        a, h = data(i)
        radii = c["radii"]
        if c["ang"]:
            radii = np.array(radii) * 1.000001 * max(pix) * u.deg
        g = Genus((zscore(a), h), smoothing_radii=radii,
                  numpts=num, **k)
        g.run(**kw(o[i]))
        t = np.asarray(g.thresholds)
        # per area, in units of the larger pixels
        return t, np.asarray(g.genus_stats)[0] / float(a.size) * (
            max(pix) / pix[i]) ** 2

    def dist(x, y, i, j):
        radii = c["radii"]
        if c["ang"]:
            # (rounding must not take them below a pixel)
            radii = np.array(radii) * 1.000001 * max(pix) * u.deg
        return Genus_Distance(
            x, y, smoothing_radii=radii, numpts=num,
            genus_kwargs=kw(o[i]), genus2_kwargs=kw(o[j]),
            **lims(o[i], o[j])).distance_metric().distance

    (t1, g1), (t2, g2) = quiet(curve, 0), quiet(curve, 1)
    lo, hi = max(t1.min(), t2.min()), min(t1.max(), t2.max())
    pts = np.linspace(lo, hi, 2 * num)
    want = np.linalg.norm(InterpolatedUnivariateSpline(t1, g1, k=3)(pts) -
                          InterpolatedUnivariateSpline(t2, g2, k=3)(pts))
    got = quiet(dist, data(0), data(1), 0, 1)
    close(got, want, "genus distance", rtol=1e-6, atol=1e-12)
    close(quiet(dist, data(1), data(0), 1, 0), want, "swapped",
          rtol=1e-6, atol=1e-12)
    require(quiet(dist, data(0), data(0), 0, 0) <= 1e-12,
            "distance between equal images")
    # intensity units do not matter
    a, h = data(0)
    close(quiet(dist, (3. * a - 7., h), data(1), 0, 1), want,
          "rescaled image", rtol=1e-5, atol=1e-3 * np.abs(g1).max() + 1e-12)
    return want > 0


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, form=FORM, same=st.booleans(), n=st.sampled_from(
        [20, 50]), seed=st.integers(0, 1000), sub=st.booleans())),
    quick=24, thorough=300,
    rule="bispectrum: L2 norm of the bicoherence surfaces when they have "
         "equal shapes, and difference of their means")
def bispec(c):
    d = [c["a"], dict(c["b"], shape=c["a"]["shape"]) if c["same"]
         else c["b"]]
    kw = dict(show_progress=False, nsamples=c["n"], seed=c["seed"],
              mean_subtract=c["sub"])

    def formula(s1, s2):
        b1, b2 = s1.bicoherence, s2.bicoherence
        return [np.sqrt(((b1 - b2) ** 2).sum()) if b1.shape == b2.shape
                else np.nan, abs(b1.mean() - b2.mean())]
    return battery(
        c, lambda x, y, i, j: Bispectrum_Distance(
            x, y, stat_kwargs=kw).distance_metric(),
        lambda i: Bispectrum(two(d[i])), lambda t, i: t.run(**kw),
        lambda i: two(d[i]),
        lambda x: [x.surface_distance, x.mean_distance], formula)


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, form=FORM, rad=st.sampled_from([3., 4.2, 5.]),
    pix=st.sampled_from([[0.01, 0.01], [0.01, 0.01], [0.01, 0.015],
                         [0.02, 0.015]]),
    unit=st.sampled_from(["pix", "deg"]), frac=st.sampled_from([0.8, 0.3]),
    wts=st.booleans(), per=st.lists(st.booleans(), min_size=2, max_size=2),
    nbins=st.sampled_from([None, 10, 25]), nan=st.booleans(),
    late=st.booleans(), off=st.sampled_from([-1.2, 1.5]))), quick=24,
    thorough=300,
    rule="moments: Hellinger distances of the skewness and kurtosis "
         "histograms over common bins at a common radius")
def moments(c):
    d = [c["a"], c["b"]]
    pix = c["pix"]
    s = pix[1] / pix[0]
    if c["unit"] == "pix":
        rads = [c["rad"] * max(s, 1.) * u.pix, c["rad"] / min(s, 1.) * u.pix]
        rad = c["rad"] * u.pix
    else:
        rad = c["rad"] * max(pix) * u.deg
        rads = [rad, rad]

    big = c["rad"] * max(max(s, 1.), max(1. / s, 1.))
    if big >= min(min(x["shape"]) for x in d) / 2.:
        return False

    def data(i):
        a, h = two(d[i], pix[i])
        if c["nan"]:
            a = a.copy()
            a[:2, :3] = np.nan
        return a, h

    def w(i):
        return np.abs(field(d[i], d[i]["shape"], 3)) if c["wts"] else None

    nb = c["nbins"] or int(np.sqrt(min(np.prod(x["shape"]) for x in d)))

    def formula(s1, s2):
        out = []
        for k in ("skewness", "kurtosis"):
            x, y = [np.asarray(getattr(t, k + "_array")) for t in (s1, s2)]
            x, y = x[np.isfinite(x)], y[np.isfinite(y)]
            e = np.linspace(min(x.min(), y.min()), max(x.max(), y.max()), nb)
            p, q = [np.histogram(v, e)[0] / float(len(v)) for v in (x, y)]
            out.append(np.sqrt(0.5 * ((np.sqrt(p) - np.sqrt(q)) ** 2).sum()))
            # recorded finding: the bin width is left outside the root
            out[-1] = [out[-1], out[-1] * np.sqrt(e[1] - e[0])]
        return out

    def new(i):
        return StatMoments(data(i), radius=rads[i], weights=w(i))

    def run(t, i):
        t.compute_spatial_distrib(periodic=c["per"][i], min_frac=c["frac"],
                                  show_progress=False)
        return t

    def dist(x, y, i, j):
        import contextlib
        import io
        kw = dict(nbins=c["nbins"])
        late = {}
        if c["late"] and c["nbins"]:
            kw, late = {}, kw
        with contextlib.redirect_stdout(io.StringIO()):
            return StatMoments_Distance(
                x, y, radius=rad, min_frac=c["frac"], weights1=w(i),
                weights2=w(j), periodic1=c["per"][i], periodic2=c["per"][j],
                **kw).distance_metric(**late)

    st_ = [quiet(run, quiet(new, i), i) for i in (0, 1)]
    want = quiet(formula, *st_)

    def check(x, what):
        got = [x.skewness_distance, x.kurtosis_distance]
        ok = any(np.allclose(got, [v[k] for v in want], rtol=1e-7, atol=1e-12)
                 for k in (0, 1))
        require(ok, "%s: skewness and kurtosis distances %r, expected %r "
                "or (known finding) %r" % (
                    what, got, [v[0] for v in want], [v[1] for v in want]))

    check(quiet(dist, data(0), data(1), 0, 1), "data")
    check(quiet(dist, data(1), data(0), 1, 0), "swapped data")
    z = quiet(dist, data(0), data(0), 0, 0)
    require(z.skewness_distance <= 1e-12 and z.kurtosis_distance <= 1e-12,
            "distance between equal images")
    xy = [quiet(run, quiet(new, i), i) if c["form"][i] == "done" else
          quiet(new, i) if c["form"][i] == "new" else data(i)
          for i in (0, 1)]
    check(quiet(dist, *xy, 0, 1), "%s statistics" % c["form"])
    # computed at another radius: these are computed again

    def stale(i):
        t = new(i)
        r = t._to_pixel(t.radius).value
        r = r + c["off"] if r + c["off"] > 2 and \
            r + c["off"] < min(d[i]["shape"]) / 2. - 0.5 else r - c["off"]
        t.radius = r * u.pix
        t.compute_spatial_distrib(periodic=not c["per"][i],
                                  show_progress=False)
        return t
    xy = [quiet(stale, i) if c["form"][i] == "done" else data(i)
          for i in (0, 1)]
    check(quiet(dist, *xy, 0, 1), "statistics at another radius")
    return want[0][0] > 0


@facet(st.fixed_dictionaries(dict(a=DATA, b=DATA)), quick=10, thorough=60,
       rule="comparisons without a meaning are refused")
def refused(c):
    A, B = three(c["a"]), three(c["b"])
    raises(ValueError, lambda: PCA_Distance(A, B, n_eigs="auto"),
           "n_eigs='auto'")
    p = quiet(PCA(A).run, decomp_only=True, n_eigs=2)
    raises(ValueError, lambda: PCA_Distance(p, B, n_eigs=500),
           "more eigenvalues than channels")
    raises(None, lambda: PCA_Distance(A, p, n_eigs=500),
           "more eigenvalues than channels")
    big = dict(c["b"], nch=c["a"]["nch"] + 4)
    q = quiet(PCA(three(big)).run, decomp_only=True, n_eigs=2)
    for k in (1, 3):
        for pair in ((p, q), (q, p)):
            raises(ValueError, lambda: PCA_Distance(
                *pair, n_eigs=c["a"]["nch"] + k),
                "more eigenvalues than channels in one")
    raises(ValueError, lambda: SCF_Distance(A, B, boundary=["cut"]),
           "one boundary in a list")
    bad = B[1].copy()
    bad["CDELT1"] = -0.03
    raises(None, lambda: SCF_Distance(A, (B[0], bad), show_progress=False),
           "pixels that are not square")
    return True


@facet(st.fixed_dictionaries(dict(a=DATA, b=DATA)), quick=8, thorough=60,
       rule="the former names give the same distances")
def aliases(c):
    A, B = two(c["a"]), two(c["b"])
    x = quiet(lambda: GenusDistance(A, B).distance_metric().distance)
    y = quiet(lambda: Genus_Distance(A, B).distance_metric().distance)
    close(x, y, "GenusDistance", rtol=1e-12)
    k = dict(stat_kwargs=dict(seed=3, nsamples=50, show_progress=False))
    x = quiet(lambda: BiSpectrum_Distance(A, B, **k).distance_metric())
    y = quiet(lambda: Bispectrum_Distance(A, B, **k).distance_metric())
    close([x.surface_distance, x.mean_distance],
          [y.surface_distance, y.mean_distance], "BiSpectrum_Distance",
          rtol=1e-12)
    p = dict(seed=3, nsamples=50, show_progress=False)
    close(quiet(lambda: BiSpectrum(A).run(**p).bicoherence),
          quiet(lambda: Bispectrum(A).run(**p).bicoherence), "BiSpectrum",
          rtol=1e-12)
    q = dict(min_features=2, min_deltas=np.array([0.1, 0.2, 0.4, 0.8]),
             dendro_params=dict(min_npix=4, min_value=0.))
    try:
        y = quiet(lambda: Dendrogram_Distance(A, B, **q).distance_metric())
    except Exception as e:
        raises(type(e), lambda: quiet(
            lambda: DendroDistance(A, B, **q).distance_metric()),
            "DendroDistance")
        return False
    x = quiet(lambda: DendroDistance(A, B, **q).distance_metric())
    close([x.num_distance, x.histogram_distance],
          [y.num_distance, y.histogram_distance], "DendroDistance",
          rtol=1e-12)
    return True
