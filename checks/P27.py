"""Distances between fitted slopes."""
import warnings
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require

from turbustat.statistics import (
    PowerSpectrum, PSpec_Distance, VCA, VCA_Distance, VCS, VCS_Distance,
    MVC, MVC_Distance, Wavelet, Wavelet_Distance, DeltaVariance,
    DeltaVariance_Distance)

DATA = st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(24, 34), st.integers(24, 34)).map(list),
    nch=st.integers(24, 40), seed=gen.SEED,
    slope=st.sampled_from([1., 2., 3.]), pix=st.sampled_from([0.01, 0.01,
                                                              0.02])))


def image(d, k=0):
    rng = np.random.RandomState((d["seed"] + 7919 * k) % 2 ** 32)
    a = rng.normal(size=d["shape"])
    k2 = sum(np.meshgrid(*[np.fft.fftfreq(n) ** 2 for n in d["shape"]],
                         indexing="ij"))
    k2[0, 0] = 1.
    return np.fft.ifft2(np.fft.fft2(a) * k2 ** (-d["slope"] / 4.)).real + 5.


def cube(d):
    rng = np.random.RandomState(d["seed"] % 2 ** 32)
    sh = [d["nch"]] + [n // 2 for n in d["shape"]]
    a = rng.normal(size=sh)
    k2 = sum(np.meshgrid(*[np.fft.fftfreq(n) ** 2 for n in sh],
                         indexing="ij"))
    k2[0, 0, 0] = 1.
    return np.fft.ifftn(np.fft.fftn(a) * k2 ** (-d["slope"] / 4.)).real + 2.


def two(d, k=0):
    return image(d, k), gen.header2(d["shape"], pix=d["pix"])


def three(d):
    a = cube(d)
    return a, gen.header3(a.shape, pix=d["pix"])


def mvc_dict(d, errs=False):
    hdr = gen.header2(d["shape"], pix=d["pix"])
    out = {"centroid": (image(d, 1), hdr), "moment0": (image(d, 2), hdr),
           "linewidth": (np.abs(image(d, 3)) + 0.1, hdr)}
    if errs:
        for k in list(out):
            out[k + "_error"] = (0.5 + np.abs(image(d, hash_(k))), hdr)
    return out


def hash_(k):
    return {"centroid": 4, "moment0": 5, "linewidth": 6}[k]


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def tstat(a, b, i=None):
    s1, s2, e1, e2 = a.slope, b.slope, a.slope_err, b.slope_err
    if i is not None:
        s1, s2, e1, e2 = s1[i], s2[i], e1[i], e2[i]
    return np.abs(s1 - s2) / np.sqrt(np.square(e1) + np.square(e2))


def battery(c, dist, stat, run, data, get, formula, swap=None):
    """The relations every distance has to satisfy.

    dist(x, y, o1, o2) -> computed distance object, stat(d) -> statistic
    without results, run(stat, o), data(d), get(distance) -> values,
    formula(s1, s2) -> values"""
    o1, o2 = c["o1"], c["o2"]
    A, B = c["a"], c["b"]
    s1 = quiet(run, quiet(stat, A, o1), o1)
    s2 = quiet(run, quiet(stat, B, o2), o2)
    want = formula(s1, s2)
    got = get(quiet(dist, data(A), data(B), o1, o2))
    close(got, want, "distance", rtol=1e-7)
    ok = np.isfinite(want)
    require((np.asarray(got)[ok] >= 0).all(), "negative distance")
    close(get(quiet(dist, data(B), data(A), o2, o1)), want,
          "distance of the swapped data", rtol=1e-7)
    z = np.asarray(get(quiet(dist, data(A), data(A), o1, o1)))
    require((z[np.isfinite(z)] == 0).all() and np.isfinite(z).any(),
            "distance %r between equal data" % (z,))
    # statistics instead of data
    form = c["form"]
    x = s1 if form[0] == "done" else \
        stat(A, o1) if form[0] == "new" else data(A)
    y = s2 if form[1] == "done" else \
        stat(B, o2) if form[1] == "new" else data(B)
    close(get(quiet(dist, x, y, o1, o2)), want,
          "distance from %s statistics" % (form,), rtol=1e-7)
    # computed statistics keep their own settings
    p1 = quiet(run, quiet(stat, A, o1), o1)
    p2 = quiet(run, quiet(stat, B, o2), o2)
    close(get(quiet(dist, p1, p2, c["o3"], c["o3"])), want,
          "distance of computed statistics", rtol=1e-7)
    return bool(ok.any())


FORM = st.tuples(*[st.sampled_from(["done", "new", "data"])] * 2).map(list)
CUTS = st.fixed_dictionaries(dict(
    low=st.sampled_from([0.05, 0.07, 0.1]), high=st.sampled_from(
        [0.5, 0.4, 0.35]), log=st.booleans(),
    kern=st.sampled_from([None, "hanning", "tukey"]),
    weighted=st.booleans()))


def pairs(opts):
    return dict(a=DATA, b=DATA, o1=opts, o2=opts, o3=opts, form=FORM)


def cuts(o1, o2, key):
    return u.Quantity([o1[key], o2[key]]) / u.pix


@facet(st.fixed_dictionaries(pairs(CUTS)), quick=40, thorough=800,
       rule="PSpec_Distance: t statistic of the slopes fitted to each image "
            "with its own limits and options")
def pspec(c):
    def wts(d, o):
        return image(d, 9) if o["weighted"] else None

    def kw(o):
        k = {}
        if o["kern"]:
            k["apodize_kernel"] = o["kern"]
        if o["log"]:
            k["radial_pspec_kwargs"] = dict(logspacing=True)
        return k

    def dist(x, y, o1, o2):
        swapped = [c["a"], c["b"]]
        ws = []
        for z, o in ((x, o1), (y, o2)):
            w = None
            if isinstance(z, tuple):
                d = [d for d in swapped if d["shape"] == list(z[0].shape)
                     and np.array_equal(image(d), z[0])][0]
                w = wts(d, o)
            ws.append(w)
        return PSpec_Distance(
            x, y, weights1=ws[0], weights2=ws[1], low_cut=cuts(o1, o2, "low"),
            high_cut=cuts(o1, o2, "high"), pspec_kwargs=kw(o1),
            pspec2_kwargs=kw(o2)).distance_metric()

    def run(s, o):
        return s.run(low_cut=o["low"] / u.pix, high_cut=o["high"] / u.pix,
                     fit_2D=False, **kw(o))
    return battery(
        c, dist, lambda d, o: PowerSpectrum(two(d), weights=wts(d, o)), run,
        two, lambda d: d.distance, tstat)


@facet(st.fixed_dictionaries(dict(pairs(CUTS), width=st.sampled_from(
    [None, None, 3.1, 4.4]))), quick=24, thorough=400,
       rule="VCA_Distance: the same for cubes, at a common channel width")
def vca(c):
    def kw(o):
        return dict(logspacing=True) if o["log"] else {}

    cw = dict(channel_width=c["width"] * 100. * u.m / u.s) if c["width"] \
        else {}

    def dist(x, y, o1, o2):
        return VCA_Distance(
            x, y, low_cut=cuts(o1, o2, "low"), high_cut=cuts(o1, o2, "high"),
            radial_pspec_kwargs=kw(o1),
            radial_pspec_kwargs2=kw(o2), **cw).distance_metric()

    def run(s, o):
        return s.run(low_cut=o["low"] / u.pix, high_cut=o["high"] / u.pix,
                     fit_2D=False, radial_pspec_kwargs=kw(o))
    return battery(c, dist, lambda d, o: VCA(three(d), **cw), run, three,
                   lambda d: d.distance, tstat)


@facet(st.fixed_dictionaries(pairs(CUTS)), quick=24, thorough=400,
       rule="MVC_Distance: the same for centroid, intensity and width maps, "
            "weighted by their errors when asked")
def mvc(c):
    w = c["o1"]["weighted"]

    def kw(o):
        return dict(logspacing=o["log"])

    def data(d):
        return mvc_dict(d, errs=True)

    def stat(d, o):
        m = data(d)
        arrs = [m[k][0] * (m[k + "_error"][0] ** -2. if w else 1.)
                for k in ("centroid", "moment0", "linewidth")]
        return MVC(*arrs, header=m["centroid"][1])

    def dist(x, y, o1, o2):
        return MVC_Distance(
            x, y, weight_by_error=w, low_cut=cuts(o1, o2, "low"),
            high_cut=cuts(o1, o2, "high"), pspec_kwargs=kw(o1),
            pspec2_kwargs=kw(o2)).distance_metric()

    def run(s, o):
        return s.run(low_cut=o["low"] / u.pix, high_cut=o["high"] / u.pix,
                     fit_2D=False, radial_pspec_kwargs=kw(o))
    return battery(c, dist, stat, run, data, lambda d: d.distance, tstat)


VOPT = st.fixed_dictionaries(dict(
    low=st.sampled_from([0.02, 0.05]), high=st.sampled_from([0.5, 0.4]),
    brk=st.sampled_from([None, None, 0.2])))


@facet(st.fixed_dictionaries(pairs(VOPT)), quick=40, thorough=600,
       rule="VCS_Distance: t statistics of the large-scale slopes, and of "
            "the small-scale slopes and breaks when both have one")
def vcs(c):
    def brk(o):
        return None if o["brk"] is None else np.log10(o["brk"])

    def kw(o):
        return dict(low_cut=o["low"] / u.pix, high_cut=o["high"] / u.pix)

    def dist(x, y, o1, o2):
        return VCS_Distance(x, y, breaks=[brk(o1), brk(o2)],
                            fit_kwargs=kw(o1),
                            fit_kwargs2=kw(o2)).distance_metric()

    def run(s, o):
        return s.run(breaks=brk(o), **kw(o))

    def formula(s1, s2):
        big = tstat(s1, s2, 0)
        small = b = np.nan
        if s1.slope.size > 1 and s2.slope.size > 1:
            small = tstat(s1, s2, 1)
            b = np.abs(s1.brk - s2.brk) / np.sqrt(
                s1.brk_err ** 2 + s2.brk_err ** 2)
            b = float(b)
        return np.array([np.nansum([big, small]), big, small, b])

    return battery(c, dist, lambda d, o: VCS(three(d)), run, three,
                   lambda d: np.array([
                       d.distance, d.large_scale_distance,
                       d.small_scale_distance, float(d.break_distance)]),
                   formula)


WOPT = st.fixed_dictionaries(dict(
    low=st.sampled_from([None, 2., 3.]), high=st.sampled_from(
        [None, 8., 9.]), norm=st.booleans()))


@facet(st.fixed_dictionaries(dict(pairs(WOPT), num=st.integers(8, 15),
                                  scales=st.booleans())),
       quick=40, thorough=600,
       rule="Wavelet_Distance: t statistic of the slopes over the common "
            "scales, each with its limits and options")
def wavelet(c):
    sc = np.array([2., 3., 4., 5., 6., 8., 10.]) * u.pix if c["scales"] \
        else None

    def lim(o, k):
        return None if o[k] is None else o[k] * u.pix

    def both(o1, o2, k):
        if o1[k] is None or o2[k] is None:
            return None if o1[k] == o2[k] else [lim(o1, k), lim(o2, k)]
        return u.Quantity([lim(o1, k), lim(o2, k)])

    def kw(o):
        return dict({} if o["norm"] else dict(
            scale_normalization=False), show_progress=False)

    def dist(x, y, o1, o2):
        return Wavelet_Distance(
            x, y, scales=sc, num=c["num"], xlow=both(o1, o2, "low"),
            xhigh=both(o1, o2, "high"), fit_kwargs=kw(o1),
            fit_kwargs2=kw(o2)).distance_metric()

    def run(s, o):
        return s.run(xlow=lim(o, "low"), xhigh=lim(o, "high"), **kw(o))
    return battery(c, dist, lambda d, o: Wavelet(
        two(d), scales=sc, num=c["num"]), run, two, lambda d: d.distance,
        tstat)


DOPT = st.fixed_dictionaries(dict(
    low=st.sampled_from([None, 3.2]), high=st.sampled_from([None, 7.]),
    bound=st.sampled_from(["wrap", "fill"]), weighted=st.booleans()))


@facet(st.fixed_dictionaries(dict(a=DATA, b=DATA, o1=DOPT, o2=DOPT,
                                  form=FORM, diam=st.sampled_from(
                                      [None, 1.5, 2.]), stale=st.lists(
                                      st.booleans(), min_size=2,
                                      max_size=2))),
       quick=50, thorough=500,
       rule="DeltaVariance_Distance with each data set's own lags: t "
            "statistic of the slopes, no curve distance")
def delvar(c):
    def lags(o):
        return np.array([3., 4., 5., 6.5, 8.][:5 if o["low"] else 4]) * u.pix

    dr = {} if c["diam"] is None else dict(diam_ratio=c["diam"])

    def wts(d, o):
        return np.abs(image(d, 9)) if o["weighted"] else None

    def kw(o):
        return dict(show_progress=False, boundary=o["bound"],
                    xlow=None if o["low"] is None else o["low"] * u.pix,
                    xhigh=None if o["high"] is None else o["high"] * u.pix)

    def dist(x, y, o1, o2):
        ws = []
        for z, o in ((x, o1), (y, o2)):
            w = None
            if isinstance(z, tuple):
                d = [d for d in (c["a"], c["b"]) if d["shape"] ==
                     list(z[0].shape) and np.array_equal(image(d), z[0])][0]
                w = wts(d, o)
            ws.append(w)
        return DeltaVariance_Distance(
            x, y, weights1=ws[0], weights2=ws[1], lags=lags(o1),
            lags2=lags(o2), use_common_lags=False, delvar_kwargs=kw(o1),
            delvar2_kwargs=kw(o2), **dr).distance_metric()

    def get(d):
        require(np.isnan(d.curve_distance), "a curve distance between "
                "different lags")
        return d.slope_distance

    if any(c["stale"]):
        # computed with other lags, and computed again
        s1, s2 = [quiet(DeltaVariance(
            two(d), weights=wts(d, o), lags=lags(o), **dr).run, **kw(o))
            for d, o in ((c["a"], c["o1"]), (c["b"], c["o2"]))]
        want = tstat(s1, s2)
        for t, f, o in ((s1, c["stale"][0], c["o1"]),
                        (s2, c["stale"][1], c["o2"])):
            if f:
                t.lags = lags(o) * 1.07
                quiet(t.run, show_progress=False)
        close(get(quiet(dist, s1, s2, c["o1"], c["o2"])), want,
              "distance of statistics computed at other lags", rtol=1e-7)
    return battery(
        dict(c, o3=c["o1"]) if c["o1"] == c["o2"] else dict(c, o3=None),
        lambda x, y, o1, o2: dist(x, y, o1 or c["o1"], o2 or c["o2"]),
        lambda d, o: DeltaVariance(two(d), weights=wts(d, o), lags=lags(o),
                                   **dr),
        lambda s, o: s.run(**kw(o)), two, get, tstat)


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, given=st.sampled_from(["none", "once", "bare", "bare2"]),
    common=st.booleans(), computed=st.booleans())), quick=30, thorough=300,
    rule="DeltaVariance_Distance with default lags, lags given once for both "
         "and lags without a unit (pixels)")
def delvar_lags(c):
    if c["common"]:
        c = dict(c, b=dict(c["b"], pix=c["a"]["pix"]))
    lags = np.array([3., 4., 5., 6., 7.])
    kw = dict(use_common_lags=False, delvar_kwargs=dict(show_progress=False))
    own = [dict(lags=lags * u.pix), dict(lags=lags * u.pix)]
    if c["given"] == "none":
        own = [{}, {}]
    elif c["given"] == "once":
        kw.update(lags=lags * u.pix, use_common_lags=c["common"])
    elif c["given"] == "bare":
        kw.update(lags=lags, use_common_lags=c["common"])
    else:
        own[1] = dict(lags=lags[1:] * u.pix)
        kw.update(lags=lags, lags2=lags[1:])
    s1, s2 = [DeltaVariance(two(d), **k) for d, k in zip(
        (c["a"], c["b"]), own)]
    for s in (s1, s2):
        quiet(s.run, show_progress=False)
    want = tstat(s1, s2)
    x, y = (s1, s2) if c["computed"] else (two(c["a"]), two(c["b"]))
    d = quiet(lambda: DeltaVariance_Distance(x, y, **kw).distance_metric())
    close(d.slope_distance, want, "slope distance", rtol=1e-7)
    return want > 0


@facet(st.fixed_dictionaries(dict(
    a=DATA, b=DATA, brk=st.sampled_from([0.25, 0.3, 0.35]),
    other=st.sampled_from([None, 0.27, 0.33, "none", "nofirst"]), big=st.tuples(
        *[st.integers(56, 72)] * 2).map(list),
    which=st.sampled_from(["pspec", "vca", "mvc", "vcs"]),
    cut=st.sampled_from([None, 0.05]))), quick=40, thorough=600,
    rule="breaks (one for both data sets, or one for each) and single limits "
         "are used as the break and limits of each fit")
def breaks(c):
    k = c["which"]
    # enough radial bins for a break
    sh = c["big"] if k in ("pspec", "mvc") else [24, 24] if k == "vcs" \
        else [2 * n for n in c["big"]]
    nch = c["a"]["nch"] if k == "vcs" else 4
    A, B = dict(c["a"], shape=sh, nch=nch), dict(c["b"], shape=sh, nch=nch)
    low = None if c["cut"] is None else c["cut"] / u.pix
    b1 = c["brk"] / u.pix
    b2 = b1 if c["other"] is None else None if c["other"] in (
        "none", "nofirst") else c["other"] / u.pix
    if k == "vcs":
        b1, b2 = [None if b is None else np.log10(b.value) for b in (b1, b2)]
    if c["other"] == "nofirst":
        b1, b2 = b2, b1
    given = b1 if c["other"] is None else [b1, b2]
    if k == "vcs":
        get = three
        kw = dict(fit_kwargs=dict(low_cut=low))

        def run(x, b):
            return VCS(x).run(breaks=b, low_cut=low)
        cls = VCS_Distance
    else:
        get = dict(pspec=two, vca=three, mvc=mvc_dict)[k]
        kw = dict(low_cut=low, high_cut=0.5 / u.pix)
        cls = dict(pspec=PSpec_Distance, vca=VCA_Distance,
                   mvc=MVC_Distance)[k]

        def run(x, b):
            if k == "mvc":
                s = MVC(*[x[i][0] for i in ("centroid", "moment0",
                                            "linewidth")],
                        header=x["centroid"][1])
            else:
                s = (PowerSpectrum if k == "pspec" else VCA)(x)
            return s.run(low_cut=low, high_cut=0.5 / u.pix, fit_2D=False,
                         fit_kwargs=dict(brk=b))
    d = quiet(lambda: cls(get(A), get(B), breaks=given,
                          **kw).distance_metric())
    s1, s2 = quiet(run, get(A), b1), quiet(run, get(B), b2)
    if k == "vcs":
        want = tstat(s1, s2, 0)
        if s1.slope.size > 1 and s2.slope.size > 1:
            want = want + np.nansum([tstat(s1, s2, 1)])
        close(d.distance, want, "VCS distance with breaks", rtol=1e-7)
        return s1.slope.size > 1 and s2.slope.size > 1
    close(d.distance, tstat(s1, s2), "distance with breaks", rtol=1e-7)
    return np.size(s1.slope) > 1
