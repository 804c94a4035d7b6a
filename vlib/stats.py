"""Every statistic of the package behind one interface, for the properties
that hold for all of them."""
import contextlib
import io
import warnings
import numpy as np
import astropy.units as u
from . import gen


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)


def close_figures():
    import sys
    if "matplotlib.pyplot" in sys.modules:
        sys.modules["matplotlib.pyplot"].close("all")


def smooth(shape, seed, slope=2., offset=4.):
    rng = np.random.RandomState(seed % 2 ** 32)
    a = rng.normal(size=shape)
    k2 = sum(np.meshgrid(*[np.fft.fftfreq(n) ** 2 for n in shape],
                         indexing="ij"))
    k2.flat[0] = 1.
    a = np.fft.ifftn(np.fft.fftn(a) * k2 ** (-slope / 4.)).real
    return a / a.std() + offset


class Stat(object):
    """name, ndim, whether it takes a header keyword / NaNs, and
    new(data, header, opt), run(obj, opt), attrs (results)"""

    def __init__(self, name, ndim, new, run, attrs, header=True, nans=True,
                 opts=(), dist=True, random=False):
        self.name, self.ndim, self._new, self._run = name, ndim, new, run
        self.attrs, self.header, self.nans = attrs, header, nans
        self.opts, self.dist, self.random = opts, dist, random

    def new(self, data, header=None, opt=0, **kw):
        if header is not None:
            kw["header"] = header
        return quiet(self._new, data, opt, **kw)

    def run(self, obj, opt=0, **kw):
        out = quiet(self._run, obj, opt, **kw)
        return obj if out is None else out

    def results(self, obj):
        return collect(obj, self.attrs)


def collect(obj, attrs):
    out = {}
    for a in attrs:
        v = obj
        for part in a.split("."):
            v = getattr(v, part)
        out[a] = value(v)
    return out


def value(v):
    """Copy of a result as nested lists of arrays (with units as text)"""
    if isinstance(v, u.Quantity):
        return [np.array(v.value, dtype=float), str(v.unit)]
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if isinstance(v, dict):
        return {k: value(x) for k, x in sorted(v.items())}
    if v is None or isinstance(v, (str, bool)):
        return v
    if hasattr(v, "to_string") and hasattr(v, "columns"):
        return {c: value(np.asarray(v[c])) for c in v.columns}
    a = np.array(v)
    return a


def same(got, want, what, rtol=0., atol=0.):
    """Raise unless two results are equal"""
    if isinstance(want, dict):
        gen.require(isinstance(got, dict) and sorted(got) == sorted(want),
                    "%s: keys differ" % what)
        for k in want:
            same(got[k], want[k], "%s %s" % (what, k), rtol, atol)
    elif isinstance(want, list):
        gen.require(isinstance(got, list) and len(got) == len(want),
                    "%s: %r, expected %r" % (what, got, want))
        for g, w in zip(got, want):
            same(g, w, what, rtol, atol)
    elif isinstance(want, np.ndarray) and want.dtype.kind in "fciub":
        g = np.asarray(got)
        gen.require(g.dtype.kind in "fciub", "%s: %r, expected %r" % (
            what, got, want))
        if want.dtype.kind in "biu" and g.dtype.kind in "biu":
            gen.require(np.array_equal(g, want), "%s: %r, expected %r" % (
                what, g, want))
            return
        gen.close(g, want, what, rtol=rtol, atol=atol)
    elif isinstance(want, np.ndarray):
        gen.require(np.array_equal(got, want), "%s: %r, expected %r" % (
            what, got, want))
    else:
        gen.require(got == want, "%s: %r, expected %r" % (what, got, want))


def _load():
    from turbustat.statistics import (
        PowerSpectrum, VCA, VCS, MVC, Wavelet, DeltaVariance, Genus, Tsallis,
        SCF, PCA, PDF, StatMoments, Dendrogram_Stats, Bispectrum)
    P = ("ps2D", "ps1D", "ps1D_stddev", "freqs", "slope", "slope_err",
         "slope2D", "ellip2D", "theta2D")
    F2 = dict(bootstrap=False)

    def pspec_opt(o):
        return [dict(), dict(apodize_kernel="hanning",
                             radial_pspec_kwargs=dict(logspacing=True)),
                dict(low_cut=0.06 / u.pix, high_cut=0.4 / u.pix,
                     fit_kwargs=dict(weighted_fit=True)),
                dict(apodize_kernel="tukey", alpha=0.4,
                     fit_unbinned=True),
                dict(radial_pspec_kwargs=dict(theta_0=0.7 * u.rad,
                                              delta_theta=80 * u.deg)),
                dict()][o]

    def pspec_run(s, o, **k):
        return s.run(fit_2D=True, fit_2D_kwargs=dict(
            F2, **(dict(use_azimmask=True) if o > 3 else {})),
            **pspec_opt(o), **k)

    def mvc_new(d, o, header=None, **kw):
        # d: data (or anything) for the centroid; the other maps follow it
        from turbustat.io import input_data
        a = np.array(input_data(d, no_header=True), dtype=float)
        a = a.reshape([n for n in a.shape if n > 1])
        m0 = np.exp(0.3 * (a - np.nanmean(a)))
        lw = np.abs(a[::-1]) + 1.
        if header is None:
            header = input_data(d)[1]
        kw.setdefault("moment0", m0)
        kw.setdefault("linewidth", lw)
        return MVC(d, header=header, **kw)

    def scales(o):
        return [None, np.array([2., 3., 4., 5.5]) * u.pix, None][o]

    def delvar_new(d, o, **k):
        lags = [np.array([3., 4., 5., 6., 7.]) * u.pix, None,
                np.array([2., 3.3, 5.2, 7.]) * u.pix][o]
        return DeltaVariance(d, lags=lags, nlags=6,
                             diam_ratio=[1.5, 1.5, 2.][o], **k)

    def delvar_run(s, o, **k):
        return s.run(show_progress=False, **[
            dict(), dict(boundary="fill"), dict(xlow=3 * u.pix)][o], **k)

    def genus_new(d, o, **k):
        return Genus(d, numpts=12, smoothing_radii=[
            None, [1., 2.], np.array([1., 1.5]) * u.pix][o],
            **[dict(), dict(lowdens_percent=10, highdens_percent=90),
               dict()][o], **k)

    def scf_run(s, o, **k):
        return s.run(show_progress=False, fit_2D_kwargs=dict(F2),
                     boundary=["continuous", "cut", "continuous"][o],
                     xhigh=[None, None, 3.1 * u.pix][o], **k)

    def pca_run(s, o, **k):
        try:
            return s.run(
                show_progress=False, mean_sub=[False, True, False][o],
                n_eigs=[4, 3, "auto"][o], min_eigval=[None, None, 1e-3][o],
                spectral_method=["walk-down", "walk-down",
                                 "interpolate"][o], **k)
        except Warning:
            # too few valid widths to fit; the decomposition is complete
            return s

    def pdf_run(s, o, **k):
        return s.run(verbose=k.pop("verbose", False),
                     do_fit=[True, False, True][o], **k)

    def pdf_new(d, o, **k):
        return PDF(d, min_val=[0., 3.5, 0.1][o], normalization_type=[
            None, "normalize_by_mean", None][o], **k)

    def mom_new(d, o, **k):
        return StatMoments(d, radius=[3, 4, 5][o] * u.pix, nbins=[
            None, 12, None][o], **k)

    def mom_run(s, o, **k):
        return s.run(show_progress=False, periodic=[True, False, True][o],
                     min_frac=[0.8, 0.5, 0.8][o], **k)

    def dendro_new(d, o, **k):
        return Dendrogram_Stats(
            d, min_deltas=np.linspace(0.05, 1.2, 9), dendro_params=[
                dict(min_value=1., min_npix=4), dict(min_npix=3),
                dict(min_value=2.)][o], **k)

    def dendro_run(s, o, **k):
        return s.run(show_progress=False, periodic_bounds=[
            False, True, False][o], fit_kwargs=dict(size=3), **k)

    L = [
        Stat("PowerSpectrum", 2, lambda d, o, **k: PowerSpectrum(d, **k),
             pspec_run, P, opts=range(6)),
        Stat("VCA", 3, lambda d, o, **k: VCA(d, **k), pspec_run, P,
             opts=range(6)),
        Stat("MVC", 2, mvc_new, pspec_run, P, opts=range(6)),
        Stat("VCS", 3, lambda d, o, **k: VCS(d, **k),
             lambda s, o, **k: s.run(breaks=[None, -0.7, None][o], **k),
             ("ps1D", "freqs", "slope", "slope_err", "brk", "brk_err"),
             opts=range(3)),
        Stat("Wavelet", 2, lambda d, o, **k: Wavelet(
            d, scales=scales(o), num=7, **k),
            lambda s, o, **k: s.run(show_progress=False,
                                    scale_normalization=o != 2, **k),
            ("values", "scales", "slope", "slope_err"), opts=range(3),
            ),
        Stat("DeltaVariance", 2, delvar_new, delvar_run,
             ("delta_var", "delta_var_error", "lags", "slope", "slope_err",
              "fit_range"), opts=range(3)),
        Stat("Genus", 2, genus_new, lambda s, o, **k: s.run(
            min_size=[4, 2, 4][o], **k), ("genus_stats", "thresholds"),
            opts=range(3), header=False),
        Stat("Tsallis", 2, lambda d, o, **k: Tsallis(d, lags=np.array(
            [1., 2., 4.]) * u.pix, **k),
            lambda s, o, **k: s.run(periodic=o != 1, **k),
            ("tsallis_params", "tsallis_stderrs", "tsallis_chisq", "lags"),
            opts=range(2)),
        Stat("SCF", 3, lambda d, o, **k: SCF(d, size=[5, 7, 7][o], **k),
             scf_run, ("scf_surface", "scf_spectrum", "lags", "slope",
                       "slope_err", "slope2D"), opts=range(3)),
        Stat("PCA", 3, lambda d, o, **k: PCA(d, **k), pca_run,
             ("eigvals", "n_eigs", "cov_matrix", "var_proportion"),
             opts=range(3), header=False),
        Stat("PDF", 2, pdf_new, pdf_run, ("bins", "pdf", "ecdf"),
             opts=range(3), header=False),
        Stat("StatMoments", 2, mom_new, mom_run,
             ("mean", "variance", "skewness", "kurtosis", "mean_array",
              "variance_array", "skewness_array", "kurtosis_array",
              "mean_hist", "kurtosis_hist"), opts=range(3)),
        Stat("Dendrogram", 2, dendro_new, dendro_run,
             ("numfeatures", "values", "min_deltas"), opts=range(3)),
        Stat("Bispectrum", 2, lambda d, o, **k: Bispectrum(d, **k),
             lambda s, o, **k: s.run(show_progress=False, nsamples=20,
                                     seed=[1000, 3, 7][o],
                                     mean_subtract=o == 1, **k),
             ("bispectrum", "bicoherence", "tracker"), opts=range(3),
             header=False),
    ]
    return {s.name: s for s in L}


_cache = {}


def STATS():
    if not _cache:
        _cache.update(_load())
    return _cache


NAMES = ["PowerSpectrum", "VCA", "MVC", "VCS", "Wavelet", "DeltaVariance",
         "Genus", "Tsallis", "SCF", "PCA", "PDF", "StatMoments",
         "Dendrogram", "Bispectrum"]


def data_for(s, seed, nan=0., slope=2.):
    """Data and header for a statistic (sizes vary with the seed)"""
    rng = np.random.RandomState((seed + 1) % 2 ** 32)
    if s.ndim == 2:
        shape = tuple(rng.randint(20, 27, size=2))
        hdr = gen.header2(shape, beam=0.03)
    else:
        shape = (rng.randint(12, 17),) + tuple(rng.randint(14, 18, size=2))
        hdr = gen.header3(shape, beam=0.03)
    a = smooth(shape, seed, slope)
    if nan and s.nans:
        a[rng.rand(*shape) < nan] = np.nan
    return a, hdr


class Dist(object):
    """name, ndim, kwargs(opt) (fresh keyword dictionaries), new(d1, d2, kw),
    metric(obj, **kw) and the result attributes"""

    nans = True

    def __init__(self, name, ndim, cls, kwargs, metric, attrs, opts=2,
                 plot=True, pre=None):
        self.name, self.ndim, self.cls, self.kwargs = name, ndim, cls, kwargs
        self._metric, self.attrs, self.opts = metric, attrs, opts
        self.plot, self._pre = plot, pre or (lambda d: d)

    def new(self, d1, d2, kw):
        return quiet(self.cls, self._pre(d1), self._pre(d2), **kw)

    def metric(self, obj, **kw):
        out = quiet(self._metric, obj, **kw)
        return obj if out is None else out

    def results(self, obj):
        return collect(obj, self.attrs)


def mvc_maps(d):
    """Centroid, moment 0 and line width maps from one image"""
    a, h = d
    a = np.asarray(a)
    return dict(centroid=(a, h),
                moment0=(np.exp(0.3 * (a - np.nanmean(a))), h),
                linewidth=(np.abs(a[::-1]) + 1., h))


def _load_dists():
    from turbustat import statistics as S
    F = dict

    def metric(o, **k):
        return o.distance_metric(**k)

    def cramer(o, **k):
        return o.distance_metric(n_jobs=1, **k)

    lim = [dict(low_cut=None, high_cut=0.5 / u.pix),
           dict(low_cut=0.05 / u.pix, high_cut=0.4 / u.pix)]
    L = [
        Dist("PSpec", 2, S.PSpec_Distance, lambda o: F(
            lim[o], pspec_kwargs=F(fit_2D=False, radial_pspec_kwargs=F(
                logspacing=True)), pspec2_kwargs=[None, F(fit_2D=False)][o]),
            metric, ("distance", "pspec1.slope", "pspec2.slope")),
        Dist("VCA", 3, S.VCA_Distance, lambda o: F(
            lim[o], radial_pspec_kwargs=F(logspacing=False),
            radial_pspec_kwargs2=[None, F(logspacing=True)][o]),
            metric, ("distance", "vca1.slope", "vca2.slope")),
        Dist("VCS", 3, S.VCS_Distance, lambda o: F(
            fit_kwargs=F(high_cut=0.4 / u.pix),
            fit_kwargs2=[None, F(low_cut=0.05 / u.pix)][o]),
            metric, ("distance", "vcs1.slope", "vcs2.slope")),
        Dist("MVC", 2, S.MVC_Distance, lambda o: F(
            lim[o], pspec_kwargs=F(logspacing=False), pspec2_kwargs=[
                None, F(logspacing=True)][o]),
            metric, ("distance", "mvc1.slope", "mvc2.slope"), pre=mvc_maps),
        Dist("Wavelet", 2, S.Wavelet_Distance, lambda o: F(
            num=8, fit_kwargs=F(brk=None),
            fit_kwargs2=[None, F(brk=None)][o]),
            metric, ("distance", "wt1.values", "wt2.slope")),
        Dist("DeltaVariance", 2, S.DeltaVariance_Distance, lambda o: F(
            lags=np.array([3., 4., 5., 6., 7.]) * u.pix,
            delvar_kwargs=F(boundary="wrap"),
            delvar2_kwargs=[None, F(boundary="fill")][o]),
            metric, ("curve_distance", "slope_distance")),
        Dist("Genus", 2, S.Genus_Distance, lambda o: F(
            numpts=12, smoothing_radii=[None, [1., 2.]][o],
            genus_kwargs=F(min_size=3), genus2_kwargs=[
                None, F(min_size=2)][o]),
            metric, ("distance",)),
        Dist("SCF", 3, S.SCF_Distance, lambda o: F(
            size=[5, 7][o], boundary=["continuous", "cut"][o],
            show_progress=False), metric, ("distance",)),
        Dist("PCA", 3, S.PCA_Distance, lambda o: F(
            n_eigs=[4, 5][o], mean_sub=bool(o)), metric, ("distance",)),
        Dist("PDF", 2, S.PDF_Distance, lambda o: F(
            min_val1=0.05, min_val2=0.05, do_fit=not o, normalization_type=[
                None, "standardize"][o], nbins=[None, 12][o]),
            metric, ("hellinger_distance", "ks_distance", "ks_pval",)),
        Dist("StatMoments", 2, S.StatMoments_Distance, lambda o: F(
            radius=[3, 4][o] * u.pix, periodic2=not o), metric,
            ("kurtosis_distance", "skewness_distance")),
        Dist("Dendrogram", 2, S.Dendrogram_Distance, lambda o: F(
            min_deltas=np.linspace(0.05, 1.2, 9), min_features=5,
            dendro_params=F(min_value=0.05, min_npix=4),
            dendro_kwargs=F(periodic_bounds=False, show_progress=False),
            dendro2_kwargs=[None, F(periodic_bounds=True,
                                    show_progress=False)][o]), metric,
            ("num_distance", "histogram_distance")),
        Dist("Bispectrum", 2, S.Bispectrum_Distance, lambda o: F(
            stat_kwargs=F(nsamples=20, show_progress=False,
                          mean_subtract=bool(o))), metric,
            ("surface_distance", "mean_distance")),
        Dist("Cramer", 3, S.Cramer_Distance, lambda o: F(
            noise_value1=[-np.inf, 3.][o]), cramer, ("distance",)),
    ]
    return {d.name: d for d in L}


_dcache = {}


def DISTS():
    if not _dcache:
        _dcache.update(_load_dists())
    return _dcache


DNAMES = ["PSpec", "VCA", "VCS", "MVC", "Wavelet", "DeltaVariance", "Genus",
          "SCF", "PCA", "PDF", "StatMoments", "Dendrogram", "Bispectrum",
          "Cramer"]


# results of iterative fits, which amplify rounding
ITERATIVE = ("slope2D", "ellip2D", "theta2D", "tsallis_params",
             "tsallis_stderrs", "tsallis_chisq")


def same_rounded(got, want, what, rtol=1e-10):
    """Equal up to rounding (the order of sums may differ)"""
    got, want = dict(got), dict(want)
    for k in ITERATIVE:
        if k in want:
            g, w = got.pop(k), want.pop(k)
            if k == "theta2D":
                continue
            same(g, w, "%s %s" % (what, k), rtol=5e-3, atol=5e-3)
    same(got, want, what, rtol=rtol)
