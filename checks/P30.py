"""Reproducible results, independent of history and of the global random
state."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises


class Rng(object):
    """Set the global random state, and look at it afterwards"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.old = np.random.get_state()
        np.random.seed(self.seed % 2 ** 32)
        self.start = self.now()
        return self

    def now(self):
        s = np.random.get_state()
        return (s[1].tobytes(), s[2], s[3], s[4])

    @property
    def untouched(self):
        return self.now() == self.start

    def __exit__(self, *a):
        np.random.set_state(self.old)


# statistics whose run() estimates errors by resampling: reproducible for a
# given random state only
RESAMPLE = ("PCA",)


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), ctor=st.integers(0, 5), seed=gen.SEED,
    opts=st.lists(st.integers(0, 5), min_size=1, max_size=4),
    nan=st.sampled_from([0., 0., 0.05]))), quick=300, thorough=5000,
    rule="an object run several times, with any options, ends with the "
         "results of a new object run once with the last options")
def rerun(c):
    s = stats.STATS()[c["stat"]]
    ctor = c["ctor"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"], c["nan"])
    obj = s.new((a.copy(), h.copy()), opt=ctor)
    for o in c["opts"]:
        last = o % len(s.opts)
        s.run(obj, last)
    got = s.results(obj)
    new = s.run(s.new((a.copy(), h.copy()), opt=ctor), last)
    stats.same_rounded(got, s.results(new), "%s run again" % s.name)
    return len(c["opts"]) > 1


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5), seed=gen.SEED,
    r1=gen.SEED, r2=gen.SEED)), quick=200, thorough=4000,
    rule="results do not depend on the global random state, and leave it as "
         "it was")
def rng(c):
    s = stats.STATS()[c["stat"]]
    opt = c["opt"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"])
    out = []
    for r in (c["r1"], c["r2"]):
        with Rng(r) as g:
            obj = s.run(s.new((a.copy(), h.copy()), opt=opt), opt)
            require(g.untouched or s.name in RESAMPLE,
                    "%s changed the global random state" % s.name)
            out.append(s.results(obj))
    stats.same_rounded(out[1], out[0], "%s with another random state" % s.name)
    return True


@facet(st.fixed_dictionaries(dict(
    dist=st.sampled_from(stats.DNAMES), opt=st.integers(0, 1), seed=gen.SEED,
    r1=gen.SEED, r2=gen.SEED, other=st.sampled_from(stats.DNAMES))),
    quick=120, thorough=2000,
    rule="distances do not depend on the global random state or on other "
         "distances computed before, and are the same when computed again")
def distance(c):
    d = stats.DISTS()[c["dist"]]
    a, h = stats.data_for(d, c["seed"])
    b = stats.smooth(a.shape, c["seed"] + 3)

    def once():
        obj = d.new((a.copy(), h.copy()), (b.copy(), h.copy()),
                    d.kwargs(c["opt"]))
        d.metric(obj)
        return obj
    with Rng(c["r1"]) as g:
        obj = once()
        require(g.untouched, "%s changed the global random state" %
                d.cls.__name__)
    want = d.results(obj)
    d.metric(obj)
    stats.same(d.results(obj), want, "%s computed again" % d.cls.__name__,
               rtol=1e-9)
    e = stats.DISTS()[c["other"]]
    x, k = stats.data_for(e, c["seed"] + 1)
    e.metric(e.new((x, k), (stats.smooth(x.shape, c["seed"] + 7), k),
                   e.kwargs(1 - c["opt"])))
    with Rng(c["r2"]):
        stats.same(d.results(once()), want, "%s after %s" % (
            d.cls.__name__, e.cls.__name__), rtol=1e-9)
    return True


OP = st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5),
    kind=st.sampled_from(["new", "run", "run", "check"]),
    which=st.integers(0, 3)))


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, ops=st.lists(OP, min_size=4, max_size=10))),
    quick=100, thorough=2000,
    rule="a history of constructing and running several objects on the same "
         "arrays: every object has the results it has on its own")
def history(c):
    im = stats.data_for(stats.STATS()["PowerSpectrum"], c["seed"])
    cu = stats.data_for(stats.STATS()["VCA"], c["seed"])
    pool = []
    done = 0
    for op in c["ops"]:
        if op["kind"] == "new" or not pool:
            s = stats.STATS()[op["stat"]]
            o = op["opt"] % len(s.opts)
            # all share the same arrays and header
            pool.append([s, s.new(im if s.ndim == 2 else cu, opt=o), o, None])
            continue
        p = pool[op["which"] % len(pool)]
        s = p[0]
        if op["kind"] == "run":
            p[3] = op["opt"] % len(s.opts)
            s.run(p[1], p[3])
    for s, obj, o, r in pool:
        if r is None:
            continue
        a, h = im if s.ndim == 2 else cu
        new = s.run(s.new((a.copy(), h.copy()), opt=o), r)
        stats.same_rounded(s.results(obj), s.results(new),
                           "%s in a history" % s.name)
        done += 1
    return done > 1


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, s1=st.integers(0, 2 ** 31), s2=st.integers(0, 2 ** 31),
    n=st.integers(5, 40))), quick=40, thorough=800,
    rule="Bispectrum sampling depends on its seed alone")
def bispec_seed(c):
    from turbustat.statistics import Bispectrum
    a, h = stats.data_for(stats.STATS()["Bispectrum"], c["seed"])

    def run(seed, r):
        with Rng(r) as g:
            b = Bispectrum((a, h))
            stats.quiet(b.run, show_progress=False, nsamples=c["n"],
                        seed=seed)
            require(g.untouched, "Bispectrum changed the random state")
        return b
    x, y = run(c["s1"], 1), run(c["s1"], 2)
    close(np.abs(y.bispectrum), np.abs(x.bispectrum), "same seed")
    require(np.array_equal(x.tracker, y.tracker), "same seed: samples")
    if c["s1"] != c["s2"] and c["n"] > 12:
        z = run(c["s2"], 1)
        require(not np.array_equal(np.abs(x.bispectrum),
                                   np.abs(z.bispectrum)),
                "two seeds give the same samples")
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, r1=gen.SEED, r2=gen.SEED,
    what=st.sampled_from(["pspec2d", "scf2d", "unbinned", "pca", "bayes",
                          "mcmc"]))), quick=60, thorough=600,
    rule="resampled errors are reproducible for a given random state and "
         "leave the estimates themselves alone")
def resampled(c):
    from turbustat.statistics import PowerSpectrum, SCF, PCA, PDF
    what = c["what"]

    def run():
        if what in ("pspec2d", "unbinned"):
            s = stats.STATS()["PowerSpectrum"]
            o = PowerSpectrum(stats.data_for(s, c["seed"]))
            if what == "pspec2d":
                stats.quiet(o.run, fit_2D=True, fit_2D_kwargs=dict(
                    bootstrap=True, niters=8))
                return [o.slope, o.slope2D, o.ellip2D], \
                    [o.slope2D_err, o.ellip2D_err]
            stats.quiet(o.run, fit_2D=False, fit_kwargs=dict(
                bootstrap=True, bootstrap_kwargs=dict(nboot=20)))
            return [o.slope], [o.slope_err]
        if what == "scf2d":
            s = stats.STATS()["SCF"]
            o = SCF(stats.data_for(s, c["seed"]), size=7)
            stats.quiet(o.run, show_progress=False, fit_2D_kwargs=dict(
                bootstrap=True, niters=8))
            return [o.slope, o.slope2D], [o.slope2D_err]
        if what in ("pca", "bayes"):
            s = stats.STATS()["PCA"]
            o = PCA(stats.data_for(s, c["seed"], slope=3.))
            try:
                stats.quiet(o.run, show_progress=False, n_eigs=5,
                            fit_method="odr")
            except Warning:
                pass
            return [o.eigvals], [o.spatial_width_error()]
        s = stats.STATS()["PDF"]
        a = stats.data_for(s, c["seed"])
        o = PDF(a, min_val=0.05)
        stats.quiet(o.run, fit_type="mcmc", burnin=5, steps=20, thin=2)
        return [o.pdf], [o.model_params, o.model_stderrs]
    with Rng(c["r1"]):
        e1, s1 = run()
    with Rng(c["r1"]):
        e2, s2 = run()
    with Rng(c["r2"]):
        e3, s3 = run()
    stats.same(stats.value(e2), stats.value(e1), "estimates")
    stats.same(stats.value(s2), stats.value(s1), "resampled errors")
    stats.same(stats.value(e3), stats.value(e1), "estimates with another "
               "random state")
    if what == "unbinned":
        # resampled with its own seed
        stats.same(stats.value(s3), stats.value(s1), "errors resampled with "
                   "the same seed, with another random state")
        with Rng(c["r1"]):
            before = np.random.get_state()
            run()
            after = np.random.get_state()
        require(np.array_equal(before[1], after[1]) and
                before[2:] == after[2:],
                "resampling with a seed changes the global random state")
    return True


def _table():
    """statistic: [(method, {option of run: values}, keyword dictionary of
    run, {option in it: values})], with the step "?fit_2D" and the like left
    out when that option of run is off, and the results compared"""
    pix = 1. / u.pix
    P = [("compute_pspec", dict(
        beam_correct=[False, True], apodize_kernel=[
            None, "tukey", "splitcosinebell", "hanning", "cosinebell"],
        alpha=[0.2, 0.45], beta=[0., 0.3]), None, {}),
        ("compute_radial_pspec", {}, "radial_pspec_kwargs",
         dict(logspacing=[False, True], max_bin=[None, 0.45],
              theta_0=[None, 0.6 * u.rad],
              delta_theta=[None, 100. * u.deg])),
        ("fit_pspec", dict(
            low_cut=[None, 0.07 * pix], high_cut=[None, 0.36 * pix],
            fit_unbinned=[False, True]), "fit_kwargs",
            dict(weighted_fit=[False, True], bootstrap=[False, True])),
        ("fit_2Dpspec?fit_2D", dict(
            low_cut=[None, 0.07 * pix], high_cut=[None, 0.36 * pix]),
            "fit_2D_kwargs", dict(
                fix_ellip_params=[False, True], bootstrap=[False],
                radial_weighting=[False, True]))]
    PA = ("ps2D", "ps1D", "ps1D_stddev", "freqs", "slope", "slope_err",
          "low_cut", "high_cut")
    P2 = ("slope2D", "ellip2D", "theta2D", "slope2D_err", "ellip2D_err",
          "theta2D_err")
    lim = dict(xlow=[None, 2.2 * u.pix], xhigh=[None, 6.4 * u.pix])
    return dict(
        PowerSpectrum=(P, PA, P2), VCA=(P, PA, P2), MVC=(P, PA, P2),
        VCS=([("compute_pspec", {}, None, {}),
              ("fit_pspec", dict(
                  low_cut=[None, 0.1 * pix], high_cut=[None, 0.4 * pix],
                  breaks=[None, -0.7], bootstrap=[False, True]), None, {})],
             ("ps1D", "freqs", "slope", "slope_err", "brk", "brk_err"), ()),
        SCF=([("compute_surface", dict(
            boundary=["continuous", "cut"], show_progress=[False]),
            None, {}),
            ("compute_spectrum", {}, "radialavg_kwargs",
             dict(logspacing=[False, True])),
            ("fit_plaw", dict(xlow=[None, 1.2 * u.pix],
                              xhigh=[None, 3.1 * u.pix]), "fit_kwargs",
             dict(bootstrap=[False, True])),
            ("fit_2Dplaw?fit_2D", dict(
                xlow=[None, 1.2 * u.pix], xhigh=[None, 3.1 * u.pix]),
             "fit_2D_kwargs", dict(bootstrap=[False]))],
            ("scf_surface", "scf_spectrum", "scf_spectrum_stddev", "lags",
             "slope", "slope_err", "xlow", "xhigh"), P2),
        DeltaVariance=([("compute_deltavar", dict(
            boundary=["wrap", "fill"], nan_treatment=["fill", "interpolate"],
            preserve_nan=[False, True], allow_huge=[False, True],
            show_progress=[False]), None, {}),
            ("fit_plaw", dict(lim, brk=[None, 4.2 * u.pix]), "fit_kwargs",
             dict(bootstrap=[False, True]))],
            ("delta_var", "delta_var_error", "lags", "slope", "slope_err",
             "fit_range"), ()),
        Wavelet=([("compute_transform", dict(
            scale_normalization=[True, False], show_progress=[False]),
            None, {}),
            ("fit_transform", dict(lim, brk=[None, 4.2 * u.pix]),
             "fit_kwargs", dict(weighted_fit=[False, True],
                                bootstrap=[False, True]))],
            ("values", "scales", "stddev", "slope", "slope_err"), ()),
        Genus=([("make_genus_curve", dict(
            min_size=[4, 2, 9], connectivity=[2, 1],
            enable_small_removal=[True, False], use_beam=[False, True],
            match_kernel=[False, True]), None, {})],
            ("genus_stats", "thresholds"), ()),
        Tsallis=([("make_tsallis", dict(
            num_bins=[None, 12], periodic=[True, False]), None, {}),
            ("fit_tsallis", dict(sigma_clip=[5, 2.5, None]), None, {})],
            ("tsallis_params", "tsallis_stderrs", "tsallis_chisq", "lags",
             "lag_distribs"), ()),
        PCA=([("compute_pca", dict(
            mean_sub=[False, True], n_eigs=[4, 3, "auto"],
            min_eigval=[1e-3, 0.9], eigen_cut_method=["value", "proportion"],
            show_progress=[False]), None, {}),
            ("find_spatial_widths?~decomp_only", dict(
                spatial_method=["contour", "fit"], beam_fwhm=[
                    None, 0.02 * u.deg, 90 * u.arcsec],
                brunt_beamcorrect=[True, False]), None, {}),
            ("find_spectral_widths?~decomp_only", dict(
                spectral_method=["walk-down", "fit", "interpolate"]), None,
             {}),
            ("fit_plaw?~decomp_only", dict(
                xlow=[None, 0.8 * u.pix], xhigh=[None, 9. * u.pix],
                fit_method=["odr"]), None, {})],
            ("eigvals", "n_eigs", "cov_matrix", "var_proportion"),
            ("_spatial_width", "_spectral_width", "_spatial_width_error",
             "_spectral_width_error", "index", "gamma",
             "index_error_range")),
        PDF=([("make_pdf", dict(bins=[None, 9]), None, {}),
              ("make_ecdf", {}, None, {}),
              ("fit_pdf?do_fit", dict(
                  floc=[True, False], loc=[0., 0.2], fscale=[False, True],
                  scale=[1., 1.5]), None, {})],
             ("bins", "pdf", "ecdf"), ("model_params", "model_stderrs")),
        StatMoments=([("array_moments", {}, None, {}),
                      ("compute_spatial_distrib", dict(
                          periodic=[True, False], radius=[None, 5 * u.pix],
                          min_frac=[0.8, 0.5], show_progress=[False]), None,
                       {}),
                      ("make_spatial_histograms", dict(
                          mean_bins=[None, np.linspace(2, 7, 9)],
                          variance_bins=[None, np.linspace(0, 2, 9)],
                          skewness_bins=[None, np.linspace(-2, 2, 9)],
                          kurtosis_bins=[None, np.linspace(-3, 3, 9)]), None,
                       {})],
                     ("mean", "variance", "skewness", "kurtosis",
                      "mean_array", "variance_array", "skewness_array",
                      "kurtosis_array", "mean_hist", "variance_hist",
                      "skewness_hist", "kurtosis_hist"), ()),
        Dendrogram=([("compute_dendro", dict(
            show_progress=[False], periodic_bounds=[False, True]), None, {}),
            ("fit_numfeat", {}, "fit_kwargs", dict(size=[3, 4])),
            ("make_hists?make_hists", {}, "hist_kwargs",
             dict(min_number=[2, 10], bins=[5, 8]))],
            ("numfeatures", "values", "min_deltas", "tail_slope",
             "tail_slope_err", "fitvals"), ("hists",)),
        Bispectrum=([("compute_bispectrum", dict(
            nsamples=[20, 33], seed=[1000, 4], mean_subtract=[False, True],
            show_progress=[False]), None, {})],
            ("bispectrum", "bicoherence", "tracker"), ()))


# names of the same option in the steps of PCA.run
RENAME = dict(spatial_method="method", spectral_method="method")


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), ctor=st.integers(0, 5), seed=gen.SEED,
    pick=gen.SEED, extra=st.booleans(), few=st.booleans(),
    nan=st.sampled_from([0., 0., 0.05]))), quick=420, thorough=8000,
    rule="run with any options gives the results of its steps with these "
         "options, and fails when they do")
def steps(c):
    s = stats.STATS()[c["stat"]]
    ctor = c["ctor"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"], c["nan"])
    rng = np.random.RandomState(c["pick"] % 2 ** 32)
    table, attrs, more = _table()[c["stat"]]
    top, nested, calls = {}, {}, []
    on = c["extra"]
    for method, opts, box, inner in table:
        method, _, flag = method.partition("?")
        for k in sorted(opts):
            if k not in top:
                v = opts[k]
                top[k] = v[0] if c["few"] and rng.rand() < 0.7 else \
                    v[rng.randint(len(v))]
        kw = {RENAME.get(k, k): top[k] for k in opts}
        if box is not None:
            nested[box] = {k: inner[k][rng.randint(len(inner[k]))]
                           for k in sorted(inner)}
            if c["stat"] in ("PowerSpectrum", "VCA", "MVC") and \
                    nested[box].get("theta_0", 1) is None:
                nested[box]["delta_theta"] = None
            for k in [k for k in nested[box] if nested[box][k] is None]:
                del nested[box][k]
            if nested[box].get("theta_0") is not None:
                nested[box].setdefault("delta_theta", 120 * u.deg)
            kw.update(nested[box])
        if not flag or on:
            calls.append((method, kw))
        if flag:
            top[flag.lstrip("~")] = (not on) if flag[0] == "~" else on

    def fresh():
        return s.new((a.copy(), h.copy()), opt=ctor)

    def one():
        o = fresh()
        stats.quiet(o.run, **top, **{k: dict(v) for k, v in nested.items()})
        return o

    def many():
        o = fresh()
        for method, kw in calls:
            if c["stat"] == "PCA" and method == "find_spatial_widths" and \
                    kw.get("beam_fwhm") is None:
                kw = dict(kw, beam_fwhm=0.03 * u.deg)
            stats.quiet(getattr(o, method), **kw)
        return o
    objs, errs = [], []
    for f in (many, one):
        with Rng(c["pick"]):
            try:
                objs.append(f())
            except Exception as e:
                errs.append(e)
    if errs:
        require(len(errs) == 2 and type(errs[0]) is type(errs[1]),
                "%s: %s and its steps: %r" % (s.name, top, errs))
        return False
    names = attrs + (more if on else ())
    want, got = [stats.collect(o, [n for n in names if hasattr(o, n)])
                 for o in objs]
    require(set(want) >= set(n for n in attrs if n not in ("stddev",)) and
            (not on or set(want) >= set(more)), "results %r" % sorted(want))
    require(sorted(got) == sorted(want), "results of %s: %r and %r" % (
        s.name, sorted(got), sorted(want)))
    stats.same(got, want, "%s: run and its steps" % s.name, rtol=1e-9)
    if not on and c["stat"] in ("PowerSpectrum", "VCA", "MVC", "SCF"):
        require(not hasattr(objs[1], "_slope2D"), "a 2D fit with fit_2D off")
    return True
