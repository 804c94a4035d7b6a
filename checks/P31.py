"""Plots: they do not change results, are saved where asked, and show the
results in the units asked for."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require

DIST = 250.          # pc
PIX = 0.01           # deg per pixel in the headers of vlib.gen


class scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp31_")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)
        stats.close_figures()
        shutil.rmtree(self.dir, ignore_errors=True)


MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF"}


def saved(tmp, name):
    """Exactly the plot that was asked for is in the directory"""
    found = sorted(os.path.relpath(os.path.join(d, f), tmp)
                   for d, _, fs in os.walk(tmp) for f in fs)
    require(found == [name], "files %r were written, expected %r" % (
        found, [name]))
    with open(os.path.join(tmp, name), "rb") as f:
        head = f.read(4)
    want = MAGIC[os.path.splitext(name)[1]]
    require(head == want, "%s is not a %s file" % (name, name[-3:]))


@facet(st.fixed_dictionaries(dict(stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5),
                   seed=gen.SEED, nan=st.sampled_from([0., 0.05]),
                   ext=st.sampled_from([".png", ".png", ".pdf"]),
                   sub=st.booleans())),
       quick=64, thorough=1200, rule="a run with a plot gives the results of a run without, and writes exactly the file asked for")
def statistics(case):
    stat, opt, seed, nan, ext, sub = (case[k] for k in 'stat opt seed nan ext sub'.split())
    import matplotlib.pyplot as plt
    s = stats.STATS()[stat]
    opt %= len(s.opts)
    data, hdr = stats.data_for(s, seed, nan)
    dh = hdr if s.header else None
    a = s.run(s.new((data, hdr) if not s.header else data, dh, opt), opt)
    want = s.results(a)
    name = ("sub dir/" if sub else "") + "plot v1" + ext
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, "sub dir"))
        b = s.new((data, hdr) if not s.header else data, dh, opt)
        try:
            b = s.run(b, opt, verbose=True,
                      save_name=name if sub else os.path.join(tmp, name))
        except ValueError as e:
            # PCA without enough widths to draw
            if stat == "PCA" and "zero-size" in str(e):
                return False
            raise
        if stat == "PCA" and not os.path.exists(name):
            return False              # no fit: nothing to plot
        saved(tmp, name)
        require(len(plt.get_fignums()) == 0,
                "%s: the saved figure stays open" % stat)
        stats.same(s.results(b), want, "%s with a plot" % stat)
        # and without saving nothing is written
        os.remove(os.path.join(tmp, name))
        c = s.new((data, hdr) if not s.header else data, dh, opt)
        c = s.run(c, opt, verbose=True)
        stats.same(s.results(c), want, "%s with a plot" % stat)
        require(not [f for _, _, fs in os.walk(tmp) for f in fs],
                "%s writes a file without save_name" % stat)
    return True


@facet(st.fixed_dictionaries(dict(dist=st.sampled_from(stats.DNAMES), opt=st.integers(0, 1),
                   seed=gen.SEED, nan=st.sampled_from([0., 0.05]))),
       quick=56, thorough=900, rule="a distance with a plot equals the distance without")
def distances(case):
    dist, opt, seed, nan = (case[k] for k in 'dist opt seed nan'.split())
    d = stats.DISTS()[dist]
    d1 = stats.data_for(d, seed, nan)
    d2 = stats.data_for(d, seed, 0., slope=3.)
    want = d.results(d.metric(d.new(d1, d2, d.kwargs(opt))))
    with scratch() as tmp:
        b = d.new(d1, d2, d.kwargs(opt))
        b = d.metric(b, verbose=True, save_name=os.path.join(tmp, "d.png"))
        stats.same(d.results(b), want, "%s with a plot" % dist)
        found = sorted(os.listdir(tmp))
        # Dendrogram_Distance makes two plots
        require(found and all(f.endswith(".png") for f in found),
                "%s: files %r were written for save_name d.png" % (
                    dist, found))
        for f in found:
            with open(os.path.join(tmp, f), "rb") as h:
                require(h.read(4) == MAGIC[".png"], "%s is not a PNG" % f)
        if dist not in ("Dendrogram", "PDF"):
            require(found == ["d.png"],
                    "%s: files %r were written for save_name d.png" % (
                        dist, found))
    return True


# ---- what is shown

def curves(ax):
    """Lines of an axis, with log10 of the values on logarithmic axes"""
    out = []
    for ln in ax.get_lines():
        x = np.array(ln.get_xdata(), dtype=float).ravel()
        y = np.array(ln.get_ydata(), dtype=float).ravel()
        if ln.get_transform() != ax.transData:
            # axvline / axhline
            out.append(("v" if x.size and np.all(x == x[0]) and
                        list(y) == [0, 1] else "h", x, y))
            continue
        out.append(("c", x, y))
    return out


def logs(ax, x, y):
    with np.errstate(all="ignore"):
        if ax.get_xscale() == "log":
            x = np.log10(x)
        if ax.get_yscale() == "log":
            y = np.log10(y)
    return x, y


def show(ax):
    return [(k, np.round(x[:3], 4).tolist(), np.round(y[:3], 4).tolist(),
             x.size) for k, x, y in curves(ax)]


def has_points(ax, x, y, what, logy=True):
    """Some curve of the axis has exactly the points (log x, log y)"""
    ok = np.isfinite(x) & np.isfinite(y)
    x, y = x[ok], y[ok]
    tol = 1e-8 * (np.abs(y).max() + 1) + 1e-12
    best = None
    for kind, cx, cy in curves(ax):
        if kind != "c":
            continue
        cx, cy2 = logs(ax, cx, cy)
        cy = cy2 if logy else cy
        g = np.isfinite(cx) & np.isfinite(cy)
        cx, cy = cx[g], cy[g]
        if cx.size != x.size:
            continue
        i, j = np.argsort(x, kind="stable"), np.argsort(cx, kind="stable")
        err = max(np.abs(cx[j] - x[i]).max(), np.abs(cy[j] - y[i]).max())
        best = err if best is None else min(best, err)
        if err <= tol:
            return
    require(False, "%s is not shown: %s (closest differs by %s); shown: %s"
            % (what, list(zip(x[:3], y[:3])), best, show(ax)))


def on_model(ax, model, x0, x1, what):
    """Some curve lies on the model for log x and covers a good part of
    [x0, x1]"""
    tol = 1e-8
    best = None
    for kind, cx, cy in curves(ax):
        if kind != "c":
            continue
        cx, cy = logs(ax, cx, cy)
        g = np.isfinite(cx) & np.isfinite(cy)
        cx, cy = cx[g], cy[g]
        if cx.size < 2 or np.ptp(cx) < 0.4 * (x1 - x0):
            continue
        m = model(cx)
        err = np.abs(cy - m).max() / (np.abs(m).max() + 1.)
        best = err if best is None else min(best, err)
        if err <= tol:
            return
    require(False, "%s: no curve lies on the fitted model (closest differs "
            "by %s); shown: %s" % (what, best, show(ax)))


def marks(ax, values, what):
    """Vertical lines at the given (log) positions"""
    got = []
    for kind, cx, cy in curves(ax):
        if kind == "v":
            x = logs(ax, cx[:1], np.ones(1))[0][0]
            got.append(x)
    for v in values:
        require(any(abs(g - v) <= 1e-8 * (1 + abs(v)) for g in got),
                "%s: no line at the fit limit %s (lines at %s)" % (
                    what, v, got))


def bars(ax, x, low, high, what):
    """Error bars (or a shaded band) from low to high at x, in the
    coordinates of the axis"""
    from matplotlib.collections import LineCollection, PolyCollection
    ok = np.isfinite(x) & np.isfinite(low) & np.isfinite(high)
    want = np.stack([x, low, high], 1)[ok]
    scale = np.ptp(want[:, 1:]) + 1e-300
    got = []
    for col in ax.collections:
        if isinstance(col, LineCollection):
            for seg in col.get_segments():
                if len(seg) == 2 and abs(seg[0][0] - seg[1][0]) <= \
                        1e-9 * abs(seg[0][0]) + 1e-12:
                    got.append((seg[0][0], min(seg[:, 1]), max(seg[:, 1])))
        elif isinstance(col, PolyCollection):
            for path in col.get_paths():
                v = path.vertices
                for xi in np.unique(v[:, 0]):
                    yy = v[v[:, 0] == xi, 1]
                    got.append((xi, yy.min(), yy.max()))
    require(got, "%s: no errors are shown" % what)
    got = np.array(got)
    for xi, a, b in want:
        near = got[np.abs(got[:, 0] - xi) <= 1e-7 * (abs(xi) + 1e-6)]
        # 0.434 for log10(e)
        tol = 2e-3 * (b - a) + 1e-7 * scale + 1e-9 * (abs(a) + abs(b))
        require(len(near) and np.any(
            (np.abs(near[:, 1] - a) <= tol) & (np.abs(near[:, 2] - b) <=
                                               tol)),
            "%s: at %s the errors span %s, expected %s to %s" % (
                what, xi, near[:, 1:].tolist(), a, b))


def image_of(fig, want, what):
    im = [np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan)
          for ax in fig.get_axes() for i in ax.get_images()]
    w = np.where(np.isfinite(want), want, np.nan)
    require(any(i.shape == w.shape and np.allclose(
        np.where(np.isfinite(i), i, np.nan), w, rtol=1e-9, atol=1e-12,
        equal_nan=True) for i in im), "%s is not shown" % what)


def piecewise(const, slope, brk):
    if np.ndim(slope) == 0 or np.size(slope) == 1:
        b = float(np.ravel(slope)[0])
        return lambda x: const + b * x
    s1, s2 = slope
    lb = np.log10(brk)
    return lambda x: np.where(x < lb, const + s1 * x,
                              const + s1 * lb + s2 * (x - lb))


LENGTH = st.sampled_from(["pix", "deg", "arcsec", "pc", "AU", "rad"])


def pixels_per(unit):
    """Pixels of one unit of length"""
    if unit == u.pix:
        return 1.
    if unit.is_equivalent(u.deg):
        return unit.to(u.deg) / PIX
    return unit.to(u.pc) / DIST / np.deg2rad(PIX)


def axes_of(fig, n):
    ax = fig.get_axes()
    require(len(ax) >= n, "%d axes, expected %d" % (len(ax), n))
    return ax


def broken_image(seed, n=48, brk=0.12):
    """An image whose power spectrum breaks"""
    rng = np.random.RandomState(seed % 2 ** 32)
    k = np.hypot(*np.meshgrid(np.fft.fftfreq(n), np.fft.fftfreq(n)))
    k[0, 0] = 1.
    amp = np.where(k < brk, k ** -0.5, brk ** -0.5 * (k / brk) ** -2.5)
    ph = np.fft.fft2(rng.normal(size=(n, n)))
    return np.fft.ifft2(ph / np.abs(ph) * amp).real


@facet(st.fixed_dictionaries(dict(stat=st.sampled_from(["PowerSpectrum", "PowerSpectrum",
                                         "VCA", "MVC"]),
                   seed=gen.SEED, unit=LENGTH, wave=st.booleans(),
                   fill=st.booleans(), resid=st.booleans(),
                   brk=st.booleans(), two=st.booleans(),
                   via_run=st.booleans(), image=st.booleans())),
       quick=80, thorough=2000, rule="the plotted spectrum, fit, residuals and limits are the results in the unit asked for")
def spectra(case):
    stat, seed, unit, wave, fill, resid, brk, two, via_run, image = (case[k] for k in 'stat seed unit wave fill resid brk two via_run image'.split())
    import matplotlib.pyplot as plt
    stats.close_figures()
    unit = u.Unit(unit)
    s = stats.STATS()[stat]
    broken = brk and stat == "PowerSpectrum"
    if broken:
        data = broken_image(seed)
        hdr = gen.header2(data.shape)
        kw = dict(fit_kwargs=dict(brk=0.12 / u.pix, log_break=False),
                  low_cut=0.03 / u.pix, high_cut=0.45 / u.pix)
    else:
        data, hdr = stats.data_for(s, seed)
        kw = dict(low_cut=0.06 / u.pix, high_cut=0.4 / u.pix)
    o = s.new(data, hdr, 0, distance=DIST * u.pc)
    show_kw = dict(xunit=unit ** -1, use_wavenumber=wave)
    if via_run:
        stats.quiet(o.run, fit_2D=two, fit_2D_kwargs=dict(bootstrap=False),
                    verbose=True, **dict(kw, **show_kw))
        resid = True
    else:
        stats.quiet(o.run, fit_2D=two, fit_2D_kwargs=dict(bootstrap=False),
                    **kw)
        stats.quiet(o.plot_fit, fillin_errs=fill, show_residual=resid,
                    show_2D=image, **show_kw)
    fig = plt.gcf()
    f = np.asarray(o.freqs.value)
    ps = np.asarray(o.ps1D)
    conv = np.log10(pixels_per(unit) *
                    (min(o.ps2D.shape) if wave else 1.))
    lf, lp = np.log10(f), np.log10(ps)
    is_broken = isinstance(o.slope, np.ndarray)
    model = piecewise(o.fit.params[0], o.slope,
                      o.brk.value if is_broken else None)
    axs = [a for a in fig.get_axes() if a.get_lines()]
    what = "%s in 1/%s" % (stat, unit)
    if image or via_run:
        with np.errstate(all="ignore"):
            if image and not via_run:
                image_of(fig, np.log10(np.asarray(o.ps2D)),
                         what + " 2D spectrum")
    require(len(axs) == (2 if resid else 1), "%s: %d axes with curves" % (
        what, len(axs)))
    ax = axs[0]
    has_points(ax, lf + conv, lp, what + " spectrum")
    err = np.asarray(o.ps1D_stddev) / ps / np.log(10.)
    bars(ax, lf + conv, lp - err, lp + err, what + " spectrum")
    lo, hi = o.low_cut.value, o.high_cut.value
    on_model(ax, lambda x: model(x - conv), np.log10(lo), np.log10(hi), what)
    marks(ax, np.log10([lo, hi]) + conv, what)
    if resid:
        has_points(axs[1], lf + conv, lp - model(lf), what + " residuals")
        bars(axs[1], lf + conv, lp - model(lf) - err, lp - model(lf) + err,
             what + " residuals")
        marks(axs[1], np.log10([lo, hi]) + conv, what)
    stats.close_figures()
    return unit != u.pix


@facet(st.fixed_dictionaries(dict(seed=gen.SEED, unit=st.sampled_from(
           ["pix", "m/s", "km/s"]), resid=st.booleans(),
           brk=st.booleans(), via_run=st.booleans())),
       quick=32, thorough=600, rule="the plotted spectrum, fit, residuals and limits are the results in the unit asked for")
def vcs(case):
    seed, unit, resid, brk, via_run = (case[k] for k in 'seed unit resid brk via_run'.split())
    import matplotlib.pyplot as plt
    stats.close_figures()
    unit = u.Unit(unit)
    s = stats.STATS()["VCS"]
    data, hdr = stats.data_for(s, seed)
    data = stats.smooth((40, 8, 9), seed, 2.5)
    hdr = gen.header3(data.shape)
    o = s.new(data, hdr, 0)
    kw = dict(low_cut=0.03 / u.pix, high_cut=0.4 / u.pix,
              breaks=-0.9 if brk else None)
    if via_run:
        stats.quiet(o.run, verbose=True, xunit=unit ** -1, **kw)
        resid = True
    else:
        stats.quiet(o.run, **kw)
        stats.quiet(o.plot_fit, xunit=unit ** -1, show_residual=resid)
    axs = [a for a in plt.gcf().get_axes() if a.get_lines()]
    f, ps = np.asarray(o.freqs.value), np.asarray(o.ps1D)
    pos = (f > 0) & (np.arange(f.size) >= 1) & (np.arange(f.size)
                                                < f.size // 2)
    f, ps = f[pos], ps[pos]
    conv = 0. if unit == u.pix else np.log10(unit.to(u.m / u.s) / 100.)
    what = "VCS in 1/(%s)" % unit
    require(len(axs) == (2 if resid else 1), "%s: %d axes with curves" % (
        what, len(axs)))
    model = piecewise(o.fit.params[0], o.slope,
                      10 ** o.brk if np.size(o.slope) > 1 else None)
    lf = np.log10(f)
    has_points(axs[0], lf + conv, np.log10(ps), what + " spectrum")
    lo, hi = o.low_cut.value, o.high_cut.value
    on_model(axs[0], lambda x: model(x - conv), np.log10(lo), np.log10(hi),
             what)
    marks(axs[0], np.log10([lo, hi]) + conv, what)
    if resid:
        has_points(axs[1], lf + conv, ps - 10 ** model(lf),
                   what + " residuals", logy=False)
    stats.close_figures()
    return unit != u.pix


@facet(st.fixed_dictionaries(dict(stat=st.sampled_from(["DeltaVariance", "Wavelet", "SCF"]),
                   opt=st.integers(0, 2), seed=gen.SEED, unit=LENGTH,
                   resid=st.booleans(), via_run=st.booleans(),
                   brk=st.booleans(), given=LENGTH)),
       quick=80, thorough=1600, rule="the plotted curve, fit, residuals and limits are the results in the unit asked for")
def curves_(case):
    stat, opt, seed, unit, resid, via_run, brk, given = (case[k] for k in 'stat opt seed unit resid via_run brk given'.split())
    import matplotlib.pyplot as plt
    stats.close_figures()
    unit, given = u.Unit(unit), u.Unit(given)
    s = stats.STATS()[stat]
    data, hdr = stats.data_for(s, seed)
    lim = np.array([2.6, 6.4] if stat != "SCF" else [0.9, 3.3]) / \
        pixels_per(given) * given
    kw = dict(xlow=lim[0], xhigh=lim[1])
    # scales and lags can be given in any unit as well
    new = dict(distance=DIST * u.pc)
    from turbustat.statistics import DeltaVariance, Wavelet
    grid = np.array([2., 2.5, 3., 3.6, 4.2, 5., 6., 7.]) / \
        pixels_per(given) * given
    if stat == "DeltaVariance":
        o = stats.quiet(DeltaVariance, data, header=hdr, lags=grid, **new)
        kw.update(show_progress=False)
        if brk:
            kw.update(brk=4. * u.pix)
    elif stat == "Wavelet":
        o = stats.quiet(Wavelet, data, header=hdr, scales=grid, **new)
        kw.update(show_progress=False)
        if brk:
            kw.update(brk=4. * u.pix)
    else:
        if opt:
            from turbustat.statistics import SCF
            roll = np.arange(-3, 4) * [1., 1.3, 0.7][opt] / \
                pixels_per(given) * given
            o = stats.quiet(SCF, (data, hdr), roll_lags=roll, **new)
        else:
            o = s.new(data, hdr, opt, **new)
        kw.update(show_progress=False, fit_2D=False)
        if brk:
            lim = lim * np.array([0.5, 1.5])
            kw.update(xlow=lim[0], xhigh=lim[1])
    if via_run:
        stats.quiet(o.run, verbose=True, xunit=unit, **kw)
        resid = True
    else:
        stats.quiet(o.run, **kw)
        plot = o.plot_transform if stat == "Wavelet" else o.plot_fit
        stats.quiet(plot, xunit=unit, show_residual=resid)
    if stat == "SCF":
        axs = [a for a in plt.gcf().get_axes() if a.get_lines()]
        x, y = gen.to_pix(o.lags, PIX, DIST), np.asarray(o.scf_spectrum)
        limits = [gen.to_pix(q, PIX, DIST) for q in lim]
        err = np.asarray(o.scf_spectrum_stddev)
        image_of(plt.gcf(), np.asarray(o.scf_surface), "SCF surface")
    else:
        axs = [a for a in plt.gcf().get_axes() if a.get_lines()]
        x = gen.to_pix(o.lags if stat == "DeltaVariance" else o.scales,
                       PIX, DIST)
        y = np.asarray(o.delta_var if stat == "DeltaVariance" else o.values)
        err = np.asarray(o.delta_var_error if stat == "DeltaVariance"
                         else o.stddev)
        limits = [gen.to_pix(q, PIX, DIST) for q in lim]
    what = "%s in %s" % (stat, unit)
    require(len(axs) == (2 if resid else 1), "%s: %d axes with curves" % (
        what, len(axs)))
    conv = -np.log10(pixels_per(unit))
    broken = np.size(o.slope) > 1
    model = piecewise(o.fit.params[0], o.slope, gen.to_pix(
        o.brk, PIX, DIST) if broken else None)
    with np.errstate(all="ignore"):
        lx, ly = np.log10(x), np.log10(y)
    has_points(axs[0], lx + conv, ly, what + " curve")
    bars(axs[0], 10 ** (lx + conv), y - err, y + err, what + " curve")
    on_model(axs[0], lambda v: model(v - conv), np.log10(limits[0]),
             np.log10(limits[1]), what)
    marks(axs[0], np.log10(limits) + conv, what)
    if resid:
        with np.errstate(all="ignore"):
            res = y - 10 ** model(lx)
            has_points(axs[1], lx + conv, res, what + " residuals",
                       logy=False)
            bars(axs[1], 10 ** (lx + conv), res - err, res + err,
                 what + " residuals")
        marks(axs[1], np.log10(limits) + conv, what)
    stats.close_figures()
    return unit != u.pix


@facet(st.fixed_dictionaries(dict(seed=gen.SEED, unit=LENGTH, spec=st.sampled_from(
           ["pix", "m/s", "km/s"]), resid=st.booleans(),
           n_eigs=st.integers(2, 9), part=st.sampled_from(
               ["both", "both", "fit", "bars"]), beam=st.booleans())),
       quick=40, thorough=400, rule="the plotted widths, fit, residuals, eigenvalues and covariance are the results")
def pca(case):
    seed, unit, spec, resid, n_eigs, part, beam = (case[k] for k in 'seed unit spec resid n_eigs part beam'.split())
    import matplotlib.pyplot as plt
    from turbustat.statistics import PCA
    stats.close_figures()
    unit, spec = u.Unit(unit), u.Unit(spec)
    data = stats.smooth((24, 20, 20), seed, 3.)
    hdr = gen.header3(data.shape, beam=0.03)
    o = stats.quiet(PCA, (data, hdr), distance=DIST * u.pc)
    try:
        stats.quiet(o.run, show_progress=False, n_eigs=6, min_eigval=None,
                    brunt_beamcorrect=beam)
    except Warning:
        return False
    stats.quiet(o.plot_fit, spatial_unit=unit, spectral_unit=spec,
                show_residual=resid, n_eigs=n_eigs,
                show_cov_bar=part != "fit", show_sl_fit=part != "bars")
    x = np.log10(o.spatial_width(u.pix).value / pixels_per(unit))
    sc = 1. if spec == u.pix else 100. / spec.to(u.m / u.s)
    y = np.log10(o.spectral_width(u.pix).value * sc)
    a = np.log10(o.intercept(u.pix).value)
    model = lambda v: o.index * (v + np.log10(pixels_per(unit))) + a + \
        np.log10(sc)
    ok = np.isfinite(x) & np.isfinite(y)
    if ok.sum() < 2:
        return False
    axs = plt.gcf().get_axes()
    main = [ax for ax in axs if any(k == "c" for k, _, _ in curves(ax))]
    if part == "bars":
        require(not main, "%d axes with curves" % len(main))
        shown_bars(axs, o, n_eigs)
        stats.close_figures()
        return True
    require(len(main) == (2 if resid else 1), "%d axes with curves" %
            len(main))
    # errorbar keeps the points with widths of 0 (not finite)
    has_points(main[0], x, y, "PCA widths")
    fx = x[~np.isnan(x)]
    if np.all(np.isfinite(fx)):
        on_model(main[0], model, fx.min(), fx.max(), "PCA fit")
    if resid:
        has_points(main[1], x, y - model(x), "PCA residuals")
    if part == "both":
        shown_bars(axs, o, n_eigs)
    stats.close_figures()
    return True


def shown_bars(axs, o, n_eigs):
    im = [i for ax in axs for i in ax.get_images()]
    require(any(np.array_equal(np.asarray(i.get_array()), o.cov_matrix)
                for i in im), "the covariance matrix is not shown")
    rects = [[p for p in ax.patches] for ax in axs if len(ax.patches) > 0]
    hts = [np.array([p.get_height() for p in b]) for b in rects]
    require(any(h.size == n_eigs and np.allclose(h, o.eigvals[:n_eigs])
                for h in hts), "%d eigenvalues are not shown" % n_eigs)


@facet(st.fixed_dictionaries(dict(stat=st.sampled_from(
           ["Genus", "Tsallis", "PDF", "StatMoments", "Bispectrum",
            "Dendrogram", "MapsStatMoments", "TsallisParams"]),
           opt=st.integers(0, 2), seed=gen.SEED, one=st.booleans())),
       quick=60, thorough=1200, rule="the plotted curves and images are the results")
def others(case):
    stat, opt, seed, one = (case[k] for k in 'stat opt seed one'.split())
    """The curves and images of the statistics without fitted scales"""
    import matplotlib.pyplot as plt
    stats.close_figures()
    name = stat.replace("Maps", "").replace("Params", "")
    s = stats.STATS()[name]
    opt %= len(s.opts)
    data, hdr = stats.data_for(s, seed)
    if stat.startswith("Tsallis"):
        from turbustat.statistics import Tsallis

        def tsallis_function(x, loga, w2, q):
            return -(np.log10(1 + (q - 1) * x ** 2 / w2) + loga) / (q - 1)

        lags = np.array([2.] if one else [1., 2., 4.]) * u.pix
        o = stats.quiet(Tsallis, data, header=hdr, lags=lags)
        clip = [5, 2.5, None][seed % 3]
        stats.quiet(o.run, periodic=opt != 1, sigma_clip=clip)
        if stat == "TsallisParams":
            stats.quiet(o.plot_parameters)
            axs = plt.gcf().get_axes()
            require(len(axs) == 3, "%d axes" % len(axs))
            for ax, k in zip(axs, ("logA", "w2", "q")):
                has_points(ax, np.asarray(o.lags.value, dtype=float),
                           np.asarray(o.tsallis_table[k], dtype=float),
                           "Tsallis %s" % k)
                v = np.asarray(o.tsallis_table[k], dtype=float)
                e = np.asarray(o.tsallis_table[k + "_stderr"], dtype=float)
                bars(ax, np.asarray(o.lags.value, dtype=float), v - e, v + e,
                     "Tsallis %s" % k)
        else:
            stats.quiet(o.plot_fit)
            axs = plt.gcf().get_axes()
            require(len(axs) == len(lags), "%d axes for %d lags" % (
                len(axs), len(lags)))
            for ax, d, p in zip(axs, o.lag_distribs, o.tsallis_params):
                has_points(ax, np.asarray(d[0]), np.asarray(d[1]),
                           "Tsallis distribution")
                has_points(ax, np.asarray(d[0]),
                           np.asarray(tsallis_function(d[0], *p)),
                           "Tsallis fit")
                if clip is not None:
                    marks(ax, [clip, -clip], "Tsallis clipping")
    elif stat == "Genus":
        o = s.run(s.new(data, None, opt), opt)
        stats.quiet(o.plot_fit, standardize=one)
        axs = plt.gcf().get_axes()
        require(len(axs) == len(o.genus_stats), "%d axes for %d radii" % (
            len(axs), len(o.genus_stats)))
        for k, (ax, g) in enumerate(zip(axs, o.genus_stats)):
            t = gen._arr(o.thresholds).astype(float)
            if one:
                t = (t - gen._arr(o.smoothed_means)[k]) / \
                    gen._arr(o.smoothed_stds)[k]
            has_points(ax, t, np.asarray(g, dtype=float), "Genus curve")
    elif stat == "PDF":
        from turbustat.statistics import PDF
        norm = [None, "normalize_by_mean", "standardize"][opt]
        if norm == "standardize" and one:
            norm = "center"
        o = stats.quiet(PDF, data, min_val=0.1, normalization_type=norm)
        fit = opt < 2
        import scipy.stats as ss
        mod, fx = ss.lognorm, {}
        if fit and one:
            mod = ss.gamma
            fx = [dict(floc=False), dict(floc=False, fscale=True, scale=0.7),
                  dict(floc=True, loc=-0.5),
                  dict(floc=True, loc=-0.5, fscale=True, scale=0.7)][seed % 4]
        stats.quiet(o.run, verbose=False, do_fit=fit, model=mod, **fx)
        if fit:
            # shape, loc and scale: those fixed and those fitted, in order
            pr = list(o.model_params)
            shape = pr.pop(0)
            loc = fx.get("loc", 0.) if fx.get("floc", True) else pr.pop(0)
            scale = fx["scale"] if fx.get("fscale") else pr.pop(0)
            frozen = mod(shape, loc=loc, scale=scale)
            stats.quiet(o.plot_distrib, show_ecdf=False)
            axs = plt.gcf().get_axes()
            require(len(axs) == 1, "%d axes without the ECDF" % len(axs))
            cp = max([k for k in curves(axs[0]) if k[0] == "c"],
                     key=lambda k: k[1].size)
            close(cp[2], frozen.pdf(cp[1]), "fitted PDF shown", rtol=1e-7,
                  atol=1e-12)
            stats.close_figures()
        stats.quiet(o.plot_distrib)
        axs = plt.gcf().get_axes()
        require(len(axs) == 2, "%d axes" % len(axs))
        with np.errstate(all="ignore"):
            b = np.asarray(o.bins, dtype=float)
            has_points(axs[0], b, np.log10(np.asarray(o.pdf)), "PDF")
            lb = np.log10(b) if axs[1].get_xscale() == "log" else b
            has_points(axs[1], lb, np.asarray(o.ecdf), "ECDF")
        if fit:
            # the second curves: the model PDF is the derivative of the
            # model ECDF
            cp = [c for c in curves(axs[0]) if c[0] == "c"]
            cc = [c for c in curves(axs[1]) if c[0] == "c"]
            require(len(cp) == 2 and len(cc) == 2, "the fit is not shown")
            x, p = max(cp, key=lambda c: c[1].size)[1:]
            x2, c = max(cc, key=lambda c: c[1].size)[1:]
            close(x2, x, "the abscissa of the fitted ECDF")
            step = (x[1] - x[0]) * 0.5 * (p[1:] + p[:-1])
            # trapezoidal rule: the error is second order in the step
            tol = 0.02 * step + 2e-3 * step.max()
            ok = np.isfinite(step) & np.isfinite(np.diff(c))
            require(np.all(np.abs(np.diff(c) - step)[ok] <= tol[ok]),
                    "the fitted ECDF is not the integral of the fitted PDF")
    elif stat == "StatMoments":
        o = s.run(s.new(data, hdr, opt), opt)
        stats.quiet(o.plot_histograms)
        axs = plt.gcf().get_axes()
        for ax, k in zip(axs, ("mean", "variance", "skewness", "kurtosis")):
            h = getattr(o, k + "_hist")
            has_points(ax, np.asarray(h[0], dtype=float),
                       np.asarray(h[1], dtype=float), k)
    elif stat == "MapsStatMoments":
        o = s.run(s.new(data, hdr, opt), opt)
        stats.quiet(o.plot_maps)
        im = [np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan)
              for ax in plt.gcf().get_axes() for i in ax.get_images()]
        for k in ("mean", "variance", "skewness", "kurtosis"):
            a = np.asarray(getattr(o, k + "_array"), dtype=float)
            require(any(i.shape == a.shape and np.array_equal(
                i, a, equal_nan=True) for i in im),
                "the map of the %s is not shown" % k)
    elif stat == "Bispectrum":
        o = s.run(s.new(data, None, opt), opt)
        stats.quiet(o.plot_surface, show_bicoh=one)
        im = [np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan)
              for ax in plt.gcf().get_axes() for i in ax.get_images()]
        want = [np.asarray(o.bispectrum_logamp)] + (
            [np.asarray(o.bicoherence)] if one else [])
        for w in want:
            wf = np.where(np.isfinite(w), w, np.nan)
            require(any(i.shape == w.shape and np.array_equal(
                np.where(np.isfinite(i), i, np.nan), wf, equal_nan=True)
                for i in im), "a surface is not shown")
    else:
        o = s.run(s.new(data, hdr, opt), opt)
        stats.quiet(o.plot_fit, show_hists=one)
        axs = plt.gcf().get_axes()
        require(len(axs) == 2 if one else 1, "%d axes" % len(axs))
        n = np.asarray(o.numfeatures, dtype=float)
        d = np.asarray(o.min_deltas, dtype=float)
        # the fit uses the deltas with enough features
        x, y = np.asarray(o.fitvals[0]), np.asarray(o.fitvals[1])
        full = dict((round(float(a), 9), float(b)) for a, b in zip(
            np.log10(d), np.log10(np.maximum(n, 1))))
        for a, b in zip(x, y):
            require(abs(full.get(round(float(a), 9), np.nan) - b) < 1e-9,
                    "fitted points %s, %s are not counts" % (a, b))
        has_points(axs[0], x, y, "feature counts")
        has_points(axs[0], x, np.asarray(o.model.fittedvalues), "fit")
        if one:
            hts = np.sort([p.get_height() for p in axs[1].patches])
            want = np.sort(np.concatenate([np.asarray(v, dtype=float)
                                           for _, v in o.hists]))
            close(hts, want, "histogram bars")
            mid = np.sort([p.get_x() + p.get_width() / 2.
                           for p in axs[1].patches])
            want = np.sort(np.concatenate([np.asarray(b, dtype=float)
                                           for b, _ in o.hists]))
            close(mid, want, "position of the histogram bars", rtol=1e-8,
                  atol=1e-10)
    stats.close_figures()
    return True


@facet(st.fixed_dictionaries(dict(
    dist=st.sampled_from([n for n in stats.DNAMES if n not in (
        "Cramer",)]), opt=st.integers(0, 1), seed=gen.SEED,
    unit=st.sampled_from(["pix", "deg", "arcmin"]), labels=st.booleans(),
    stray=st.booleans())), quick=60, thorough=1200,
    rule="the plot of a distance shows the results of both statistics in the "
         "unit asked for, under the labels given")
def distance_shown(case):
    import matplotlib.pyplot as plt
    stats.close_figures()
    name = case["dist"]
    d = stats.DISTS()[name]
    d1 = stats.data_for(d, case["seed"])
    d2 = stats.data_for(d, case["seed"] + 3, 0., slope=3.)
    o = d.new(d1, d2, d.kwargs(case["opt"]))
    kw = {}
    names = ["1", "2"]
    unit = u.Unit(case["unit"])
    spectral = name in ("PSpec", "VCA", "MVC")
    if spectral:
        kw["xunit"] = unit ** -1
    elif name in ("Wavelet", "DeltaVariance", "SCF"):
        kw["xunit"] = unit
    else:
        unit = u.pix
    if case["labels"]:
        names = ["first", "second"]
        if name in ("Bispectrum", "Genus"):
            kw.update(label1=names[0], label2=names[1])
        else:
            kw.update(plot_kwargs1=dict(label=names[0], color="k"),
                      plot_kwargs2=dict(label=names[1], color="m"))
            if case["stray"]:
                # the units come from the argument
                for k in ("plot_kwargs1", "plot_kwargs2"):
                    kw[k]["xunit"] = u.AU
    shown = []
    orig = plt.show
    plt.show = lambda *a, **k: shown.append(plt.gcf())
    try:
        d.metric(o, verbose=True, **kw)
    finally:
        plt.show = orig
    require(shown, "%s: nothing is shown" % name)
    fig = shown[-1]
    axs = [a for a in fig.get_axes() if a.get_lines()]
    pp = np.log10(pixels_per(unit))
    with np.errstate(all="ignore"):
        if spectral or name == "VCS":
            at = {"PSpec": "pspec", "VCA": "vca", "MVC": "mvc", "VCS": "vcs"}
            for i in "12":
                s = getattr(o, at[name] + i)
                f, p = np.asarray(s.freqs.value), np.asarray(s.ps1D)
                if name == "VCS":
                    k = (f > 0) & (np.arange(f.size) >= 1) & (
                        np.arange(f.size) < f.size // 2)
                    f, p = f[k], p[k]
                has_points(axs[0], np.log10(f) + pp, np.log10(p),
                           "%s spectrum %s" % (name, i))
                marks(axs[0], np.log10([s.low_cut.value, s.high_cut.value])
                      + pp, "%s %s" % (name, i))
        elif name in ("Wavelet", "DeltaVariance"):
            for i in "12":
                s = getattr(o, ("wt" if name == "Wavelet" else "delvar") + i)
                x = gen.to_pix(s.scales if name == "Wavelet" else s.lags,
                               PIX, DIST)
                y = np.asarray(s.values if name == "Wavelet"
                               else s.delta_var)
                has_points(axs[0], np.log10(x) - pp, np.log10(y),
                           "%s curve %s" % (name, i))
        elif name == "SCF":
            for s in (o.scf1, o.scf2):
                image_of(fig, np.asarray(s.scf_surface), "SCF surface")
                has_points(axs[-1], np.log10(gen.to_pix(s.lags, PIX, DIST))
                           - pp, np.log10(np.asarray(s.scf_spectrum)),
                           "SCF spectrum")
        elif name == "Bispectrum":
            for s in (o.bispec1, o.bispec2):
                image_of(fig, np.asarray(s.bicoherence), "bicoherence")
        elif name == "PCA":
            for s in (o.pca1, o.pca2):
                image_of(fig, np.asarray(s.cov_matrix), "covariance")
            bar = [[p.get_height() for p in a.patches]
                   for a in fig.get_axes() if len(a.patches) > 1]
            require(len(bar) == 2, "%d bar charts" % len(bar))
            for b, s in zip(bar, (o.pca1, o.pca2)):
                # the first one is the mean unless it is subtracted
                v = np.asarray(s.eigvals)[0 if case["opt"] else 1:][:len(b)]
                close(np.array(b) / b[0], v / v[0], "eigenvalue bars",
                      rtol=1e-9)
        elif name == "PDF":
            require(len(axs) == 2, "%d axes" % len(axs))
            for s in (o.PDF1, o.PDF2):
                x = np.asarray(o.bin_centers, dtype=float)
                has_points(axs[0], x, np.log10(np.asarray(s.pdf)), "PDF")
                has_points(axs[1], np.log10(x) if axs[1].get_xscale()
                           == "log" else x, np.asarray(s.ecdf), "ECDF")
        elif name == "StatMoments":
            for s in (o.moments1, o.moments2):
                for ax, k in zip(axs, ("kurtosis", "skewness")):
                    h = getattr(s, k + "_hist")
                    has_points(ax, np.asarray(h[0], dtype=float),
                               np.asarray(h[1], dtype=float), k)
        elif name == "Genus":
            for s in (o.genus1, o.genus2):
                cx = [c for c in curves(axs[0]) if c[0] == "c"]
                t = gen._arr(s.thresholds).astype(float)
                require(any(c[1].size == t.size and np.allclose(c[1], t)
                            for c in cx), "thresholds are not shown")
            require(len(cx) == 4, "%d curves" % len(cx))
    if case["labels"] and name != "Dendrogram":
        txt = []
        for ax in fig.get_axes():
            txt.append(ax.get_title())
            txt.extend(ax.get_legend_handles_labels()[1])
        for n in names:
            require(n in txt, "%s: label %r is not shown (%r)" % (
                name, n, txt))
    stats.close_figures()
    return True
