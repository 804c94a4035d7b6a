"""Inputs of the caller are never modified."""
import inspect
import os
import shutil
import sys
import tempfile
import types
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from spectral_cube import SpectralCube, Projection
from astropy.wcs import WCS
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import require


def print_of(x):
    """Fingerprint of an argument"""
    if isinstance(x, u.Quantity):
        v = np.asarray(x.value)
        return ("Q", str(x.unit), v.shape, v.tobytes(),
                print_of(getattr(x, "header", None)))
    if isinstance(x, np.ndarray):
        return ("A", x.shape, str(x.dtype), x.tobytes(),
                bool(x.flags.writeable))
    if isinstance(x, fits.Header):
        return ("H", x.tostring())
    if isinstance(x, (fits.PrimaryHDU, fits.ImageHDU)):
        return ("F", print_of(x.data), print_of(x.header))
    if isinstance(x, SpectralCube):
        return ("S", print_of(x.filled_data[:]), print_of(x.header))
    if isinstance(x, dict):
        return ("D", tuple(sorted((str(k), print_of(v))
                                  for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(print_of(v) for v in x)
    if isinstance(x, (int, float, str, bool, type(None))):
        return repr(x)
    return str(type(x))


def functions():
    """All functions of the package with mutable default arguments"""
    out = {}
    for name, mod in list(sys.modules.items()):
        if not name.startswith("turbustat") or ".tests" in name or \
                mod is None:
            continue
        for obj in list(vars(mod).values()):
            if inspect.isclass(obj):
                members = [getattr(m, "__func__", m)
                           for m in vars(obj).values()]
            else:
                members = [obj]
            for f in members:
                if isinstance(f, types.FunctionType) and \
                        f.__module__.startswith("turbustat"):
                    for k, d in enumerate(f.__defaults__ or ()):
                        if isinstance(d, (dict, list, np.ndarray)):
                            out[(f.__module__, f.__qualname__, k)] = d
    return out


def defaults():
    return {k: print_of(v) for k, v in functions().items()}


def unchanged(before, args, what, dflt):
    for k in before:
        require(print_of(args[k]) == before[k], "%s modified the caller's %s"
                % (what, k))
    now = defaults()
    for k in dflt:
        require(now.get(k) == dflt[k], "%s modified the default argument %d "
                "of %s" % (what, k[2], k[1]))


def layout(a, kind):
    """The same values in another memory layout"""
    if kind == "big":
        return a.astype(">f8")
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "view":
        b = np.zeros(tuple(2 * n for n in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


LAYOUTS = ["c", "c", "big", "fortran", "view"]
FORMS = ["tuple", "list", "primary", "image", "header", "sc"]


def build(a, h, form, ndim, has_header):
    if form == "primary":
        return fits.PrimaryHDU(a, h), None
    if form == "image":
        return fits.ImageHDU(a, h), None
    if form == "list":
        return [a, h], None
    if form == "header" and has_header:
        return a, h
    if form == "sc":
        if ndim == 3:
            return SpectralCube.read(fits.PrimaryHDU(a, h)), None
        return Projection(a, unit=u.K, wcs=WCS(h), header=h), None
    return (a, h), None


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5),
    form=st.sampled_from(FORMS), seed=gen.SEED, weights=st.booleans(),
    wnan=st.booleans(), lay=st.sampled_from(LAYOUTS),
    wlay=st.sampled_from(LAYOUTS),
    wform=st.sampled_from(["array", "array", "primary", "tuple", "quantity"]),
    plot=st.sampled_from([False] * 7 + [True]),
    nan=st.sampled_from([0., 0., 0.05]))), quick=300, thorough=6000,
    rule="data, headers and weights are the same after constructing, "
         "running and plotting any statistic")
def inputs(c):
    s = stats.STATS()[c["stat"]]
    opt = c["opt"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"], c["nan"])
    dflt = defaults()
    a = layout(a, c["lay"])
    data, hdr = build(a, h, c["form"], s.ndim, s.header)
    args = dict(data=data, header=hdr, array=a)
    kw = {}
    if c["weights"] and s.name in ("PowerSpectrum", "DeltaVariance",
                                   "StatMoments", "PDF"):
        w = np.random.RandomState(c["seed"] % 2 ** 32).uniform(
            0.5, 1.5, a.shape)
        if c["wnan"]:
            w[::5, ::4] = np.nan
        w = layout(w, c["wlay"])
        args["array of weights"] = w
        if c["wform"] == "primary":
            w = fits.PrimaryHDU(w, h)
        elif c["wform"] == "tuple":
            w = (w, h)
        elif c["wform"] == "quantity":
            w = w * u.dimensionless_unscaled
        kw["weights"] = args["weights"] = w
    if s.name == "MVC":
        b = np.where(np.isnan(a), 4., a)
        args["moment0"] = kw["moment0"] = np.exp(0.3 * (b - 4.))
        lw = np.abs(b[::-1]) + 1.
        lw[3, 4] = np.nan
        args["linewidth"] = kw["linewidth"] = lw
    before = {k: print_of(v) for k, v in args.items()}
    obj = s.new(data, header=hdr, opt=opt, **kw)
    unchanged(before, args, s.name, dflt)
    run = {}
    tmp = tempfile.mkdtemp(prefix="vp_p02_")
    try:
        if c["plot"]:
            run = dict(verbose=True, save_name=os.path.join(tmp, "a.png"))
        s.run(obj, opt, **run)
        unchanged(before, args, "%s.run" % s.name, dflt)
        # what the object hands out may be changed without changing the input
        s.run(obj, opt, **run)
        unchanged(before, args, "running %s again" % s.name, dflt)
    finally:
        shutil.rmtree(tmp)
        stats.close_figures()
    return True


RADIAL = dict(logspacing=True, max_bin=0.45)
PS = dict(fit_kwargs=dict(weighted_fit=True),
          fit_2D_kwargs=dict(bootstrap=False, fix_ellip_params=True),
          radial_pspec_kwargs=RADIAL, apodize_kernel="hanning",
          pyfftw_kwargs=dict(threads=1))
# keyword arguments of run() with dictionaries and arrays
RUNKW = {
    "PowerSpectrum": PS, "MVC": PS,
    "VCA": dict(PS, radial_pspec_kwargs=dict(
        RADIAL, theta_0=40 * u.deg, delta_theta=80 * u.deg)),
    "VCS": dict(pyfftw_kwargs=dict(threads=1), low_cut=0.05 / u.pix,
                high_cut=0.45 / u.pix),
    "Wavelet": dict(show_progress=False, fit_kwargs=dict(),
                    pyfftw_kwargs=dict(threads=1), convolve_kwargs=dict(
                        boundary="wrap")),
    "DeltaVariance": dict(show_progress=False, pyfftw_kwargs=dict(threads=1),
                          xlow=3 * u.pix, xhigh=7 * u.pix,
                          fit_kwargs=dict()),
    "SCF": dict(show_progress=False, fit_2D_kwargs=dict(bootstrap=False),
                radialavg_kwargs=dict(logspacing=False),
                fit_kwargs=dict(), xlow=0.5 * u.pix, xhigh=4 * u.pix),
    "PDF": dict(bins=np.linspace(0., 8., 12), do_fit=False),
    "Dendrogram": dict(show_progress=False, fit_kwargs=dict(size=3),
                       hist_kwargs=dict(bins=np.linspace(1., 7., 9))),
    "StatMoments": dict(show_progress=False, radius=4 * u.pix,
                        mean_bins=np.linspace(0., 8., 9)),
    "Genus": dict(min_size=3 * u.pix ** 2),
}
# and of the constructors
CTORKW = {
    "Wavelet": dict(scales=np.array([1.5, 2., 3., 4.5]) * u.pix),
    "DeltaVariance": dict(lags=np.array([3., 4., 5., 7.]) * u.pix,
                          diam_ratio=1.5),
    "Genus": dict(thresholds=np.array([5., 3., 4.]),
                  smoothing_radii=np.array([1., 2.])),
    "Tsallis": dict(lags=np.array([1., 3., 5.]) * u.pix),
    "SCF": dict(roll_lags=np.array([-3., -1.5, 0., 1.5, 3.]) * u.pix),
    "PDF": dict(bins=np.linspace(0., 8., 10)),
    "StatMoments": dict(radius=3 * u.pix),
    "Dendrogram": dict(min_deltas=np.linspace(0.05, 1., 8),
                       dendro_params=dict(min_value=1., min_npix=4)),
    "VCA": dict(channel_width=3 * u.pix),
}


def copy_of(x):
    if isinstance(x, dict):
        return {k: copy_of(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def classes():
    from turbustat import statistics as S
    return {n: getattr(S, "Dendrogram_Stats" if n == "Dendrogram" else n)
            for n in stats.NAMES}


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(sorted(set(RUNKW) | set(CTORKW))), seed=gen.SEED,
    ctor=st.booleans(), drop=st.lists(st.integers(0, 9), max_size=3),
    twice=st.booleans())), quick=240, thorough=4000,
    rule="keyword dictionaries and arrays given to constructors and run() "
         "are the same afterwards, and a second call with them gives the "
         "same results")
def keywords(c):
    s = stats.STATS()[c["stat"]]
    a, h = stats.data_for(s, c["seed"])
    dflt = defaults()
    ctor = copy_of(CTORKW.get(s.name, {})) if c["ctor"] else {}
    run = copy_of(RUNKW.get(s.name, {}))
    keys = sorted(run)
    for k in c["drop"]:
        if k < len(keys) and keys[k] != "show_progress":
            run.pop(keys[k], None)
    if s.name == "SCF":
        ctor.setdefault("size", 5)
        if "roll_lags" in ctor:
            ctor.pop("size")
    if s.name == "StatMoments" and not c["ctor"]:
        ctor["radius"] = 3 * u.pix
    if s.name == "MVC":
        ctor["moment0"] = np.exp(0.3 * (a - 4.))
        ctor["linewidth"] = np.abs(a[::-1]) + 1.
    if s.name == "Genus" and not c["ctor"]:
        ctor["numpts"] = 12
    if s.name == "Tsallis" and not ctor:
        ctor["lags"] = np.array([1., 2.]) * u.pix
    if s.name == "Dendrogram" and not ctor:
        ctor["min_deltas"] = np.linspace(0.05, 1., 8)
    args = dict(constructor_arguments=ctor, run_arguments=run)
    before = {k: print_of(v) for k, v in args.items()}
    cls = classes()[s.name]

    def once():
        obj = stats.quiet(cls, (a.copy(), h.copy()), **ctor)
        unchanged(before, args, s.name, dflt)
        stats.quiet(obj.run, **run)
        unchanged(before, args, s.name + ".run", dflt)
        return s.results(obj)
    names = [x for x in s.attrs if x not in ("slope2D", "ellip2D",
                                             "theta2D")]
    first = once()
    if c["twice"]:
        second = once()
        stats.same({k: second[k] for k in names},
                   {k: first[k] for k in names},
                   "%s with the same arguments again" % s.name, rtol=1e-10)
    return True


@facet(st.fixed_dictionaries(dict(
    dist=st.sampled_from(stats.DNAMES), seed=gen.SEED, opt=st.integers(0, 1),
    nan=st.sampled_from([0., 0., 0.05]), plot=st.sampled_from([False] * 2 + [True]),
    form=st.sampled_from(["tuple", "primary", "image", "list"]))),
    quick=140, thorough=3000,
    rule="data, keyword dictionaries and plot keywords given to distance "
         "metrics are the same afterwards")
def distances(c):
    d = stats.DISTS()[c["dist"]]
    a, h = stats.data_for(d, c["seed"], c["nan"] if d.name not in (
        "PCA", "Cramer") else 0.)
    b = stats.smooth(a.shape, c["seed"] + 3)
    d1, d2 = (build(x, h.copy(), c["form"], d.ndim, False)[0]
              for x in (a, b))
    if d.name == "MVC":
        d1, d2 = (a, h), (b, h)
    dflt = defaults()
    kw = d.kwargs(c["opt"])
    args = dict(data1=d1, data2=d2, keywords=kw, array=a)
    before = {k: print_of(v) for k, v in args.items()}
    pk = {}
    if d.name == "MVC":
        maps = [stats.mvc_maps(d1), stats.mvc_maps(d2)]
        args["maps"] = maps
        before["maps"] = print_of(maps)
        obj = stats.quiet(d.cls, *maps, **kw)
    else:
        obj = stats.quiet(d.cls, d1, d2, **kw)
    unchanged(before, args, d.cls.__name__, dflt)
    tmp = tempfile.mkdtemp(prefix="vp_p02_")
    try:
        if c["plot"]:
            pk = dict(verbose=True, save_name=os.path.join(tmp, "a.png"))
            if d.name not in ("Genus", "Bispectrum", "Cramer"):
                pk.update(plot_kwargs1=dict(label="one"),
                          plot_kwargs2=dict(color="k"))
            args["plot_keywords"] = pk
            before["plot_keywords"] = print_of(pk)
        d.metric(obj, **pk)
        unchanged(before, args, d.cls.__name__ + ".distance_metric", dflt)
        if c["plot"]:
            d.metric(obj, verbose=True)
            unchanged(before, args, d.cls.__name__ + ".distance_metric",
                      dflt)
    finally:
        shutil.rmtree(tmp)
        stats.close_figures()
    return True


def helpers():
    from turbustat.statistics import (psds, stats_utils, threeD_to_twoD,
                                      fitting_utils, apodizing_kernels)
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    from turbustat.statistics.lm_seg import Lm_Seg
    from turbustat.statistics.convolve_wrapper import convolution_wrapper
    from turbustat.statistics.elliptical_powerlaw import \
        fit_elliptical_powerlaw
    from turbustat.statistics.dendrograms.mecdf import mecdf
    from turbustat.statistics.pca.width_estimate import (
        WidthEstimate1D, WidthEstimate2D)
    from turbustat.statistics.tsallis.tsallis import (tsallis_function,
                                                      clip_to_sigma)
    su, fu = stats_utils, fitting_utils
    y, x = np.mgrid[-12:12, -13:13]
    peak = np.exp(-np.hypot(x, y) / 4.)

    def ellipse(r, a, p):
        m = su.EllipseModel()
        if m.estimate(p):
            m.residuals(p)

    def ppv(r, v, n):
        from turbustat.simulator import make_ppv
        make_ppv(v, n, chan_width=1 * u.km / u.s, T=100 * u.K, threads=1)

    t = np.linspace(0., 6., 12)
    pts = np.stack([3 * np.cos(t) + 0.1 * t, np.sin(t)], 1)
    # name: (function, arguments made from the random array)
    return dict(
        pspec=(lambda r, a: psds.pspec(a, return_stddev=True),
               lambda a, r: [a * a]),
        pspec_wedge=(lambda r, a, k, d, t: psds.pspec(
            a, return_stddev=True, theta_0=k, delta_theta=d, binsize=1.5,
            logspacing=False),
            lambda a, r: [a * a, 30 * u.deg, 80 * u.deg, 1]),
        rfft=(lambda r, a: rfft_to_fft(a), lambda a, r: [
            np.where(np.isnan(a), 0., a)]),
        hellinger=(lambda r, a, b: su.hellinger(a, b),
                   lambda a, r: [a[0] ** 2, a[1] ** 2]),
        standardize=(lambda r, a: su.standardize(a), None),
        normalize=(lambda r, a: su.normalize_by_mean(a), None),
        center=(lambda r, a: su.center(a), None),
        norm01=(lambda r, a: su.normalize(a), None),
        norm_type=(lambda r, a: [su.data_normalization(a, norm_type=k)
                                 for k in ("standardize", "center",
                                           "normalize",
                                           "normalize_by_mean")], None),
        kl=(lambda r, a, b: su.kl_divergence(a, b),
            lambda a, r: [a[0] ** 2, a[1] ** 2]),
        bins=(lambda r, a, b: su.common_histogram_bins(
            a, b, return_centered=True), lambda a, r: [a[0], a[1]]),
        shift=(lambda r, a: [su.fourier_shift(a, 1.3, axis=0),
                             su.fourier_shift(a, -2.5, axis=1)], None),
        pixshift=(lambda r, a: [su.pixel_shift(a, 3, axis=0),
                                su.pixel_shift(a, -2., axis=1)], None),
        ellipse=(ellipse, lambda a, r: [a, pts.copy()]),
        odr=(lambda r, x, y, ex, ey: fu.leastsq_linear(x, y, ex, ey),
             lambda a, r: [np.arange(9.), np.arange(9.) * 2 + r.rand(9),
                           np.full(9, 0.1), r.uniform(0.1, 0.2, 9)]),
        bayes=(lambda r, x, y, ex, ey: fu.bayes_linear(
            x, y, ex, ey, nBurn=5, nSample=10),
            lambda a, r: [np.arange(9.), np.arange(9.) * 0.5 + r.rand(9),
                          np.full(9, 0.1), r.uniform(0.1, 0.2, 9)]),
        limits=(lambda r, a, b: fu.check_fit_limits(a, b), lambda a, r: [
            np.array([1., 2.]) * u.pix, np.array([5., 4.]) * u.pix]),
        clip=(lambda r, a: fu.clip_func(a, -0.5, 0.5), None),
        lm_seg=(lambda r, x, y, w: Lm_Seg(x, y, 0., weights=w).fit_model(
            verbose=False), lambda a, r: [
                np.sort(r.normal(size=20)), r.normal(size=20),
                r.uniform(0.5, 1.5, 20)]),
        convolve=(lambda r, a, k: convolution_wrapper(a, k, boundary="wrap"),
                  lambda a, r: [a, r.uniform(0.5, 1., (5, 5))]),
        var_cov=(lambda r, a: [threeD_to_twoD.var_cov_cube(
            a, mean_sub=m, progress_bar=False) for m in (True, False)],
            lambda a, r: [np.stack([a, a[::-1] * 2])]),
        intensity=(lambda r, a: [threeD_to_twoD._format_data(
            a, data_format=k, num_spec=9, normalize=n)
            for k in ("intensity", "spectra") for n in (True, False)],
            lambda a, r: [np.where(np.isnan(a), 0.1, a) *
                          np.array([1., 2., -1.])[:, None, None]]),
        width1=(lambda r, a: [WidthEstimate1D(a, method=m) for m in (
            "interpolate", "walk-down")],
            lambda a, r: [np.stack([np.exp(-np.arange(20) / 4.),
                                    np.exp(-np.arange(20) / 3.)])]),
        width2=(lambda r, a: [WidthEstimate2D(
            a, method=m, brunt_beamcorrect=False) for m in (
            "contour", "fit")], lambda a, r: [np.stack([peak, peak ** 2])]),
        ellfit=(lambda r, k, a, b: fit_elliptical_powerlaw(
            k, a, b, (1., -2., 0.8, 0.3), bootstrap=False),
            lambda a, r: [np.log10(1e3 / (np.hypot(x, y) + 1.) ** 2 *
                                   r.uniform(0.9, 1.1, x.shape)),
                          x / 26., y / 24.]),
        mecdf=(lambda r, a: mecdf(a), lambda a, r: [
            r.uniform(size=(9, 2))]),
        tsallis=(lambda r, a: tsallis_function(a, -1., 1., 2.), None),
        sigma=(lambda r, a, b: clip_to_sigma(a, b, sigma=1.),
               lambda a, r: [a[0], a[1]]),
        ppv=(ppv, lambda a, r: [r.normal(size=(5, 6, 7)) * u.km / u.s,
                                r.uniform(size=(5, 6, 7)) / u.cm ** 3]),
    )


FUNCS = ["pspec", "pspec_wedge", "rfft", "hellinger", "standardize",
         "normalize", "center", "norm01", "norm_type", "kl", "bins", "shift",
         "pixshift", "ellipse", "odr", "bayes", "limits", "clip", "lm_seg",
         "convolve", "var_cov", "intensity", "width1", "width2", "ellfit",
         "mecdf", "tsallis", "sigma", "ppv"]


@facet(st.fixed_dictionaries(dict(
    fn=st.sampled_from(FUNCS), seed=gen.SEED, nan=st.sampled_from([0., 0.1]),
    lay=st.sampled_from(LAYOUTS), ro=st.booleans())), quick=300,
    thorough=4000,
    rule="helper functions leave the arrays they are given alone")
def functions_(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = rng.normal(size=(rng.randint(8, 16), rng.randint(20, 30)))
    if c["nan"]:
        a[rng.rand(*a.shape) < c["nan"]] = np.nan
    fn, make = helpers()[c["fn"]]
    args = [a] if make is None else make(a, rng)
    args = [layout(x, c["lay"]) if type(x) is np.ndarray else x
            for x in args]
    if c["ro"]:
        # also refuses to write into a read-only array
        for x in args:
            if isinstance(x, np.ndarray) and x.ndim:
                x.flags.writeable = False
    before = [print_of(x) for x in args]
    state = np.random.get_state()
    try:
        stats.quiet(fn, rng, *args)
    finally:
        np.random.set_state(state)
        stats.close_figures()
    for k, x in enumerate(args):
        require(print_of(x) == before[k], "%s modified its argument %d"
                % (c["fn"], k))
    return True
