"""Scales, lags, radii, limits and breaks in any unit."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises

ANG = ["deg", "arcmin", "arcsec", "rad", "hourangle"]
PHYS = ["pc", "AU", "kpc", "lyr", "m"]
UNIT = st.sampled_from(ANG + PHYS)
# the pixel grid: size in degrees, rotation of the axes, the unit and form of
# the header, and the distance
GRID = st.fixed_dictionaries(dict(
    pix=st.floats(-5, 0).map(lambda e: float("%.4g" % 10 ** e)),
    rot=st.sampled_from([0., 0., 30., -75., 100.]),
    cd=st.booleans(), cunit=st.sampled_from(["deg", "deg", "arcsec"]),
    dist=st.floats(0, 4).map(lambda e: float("%.4g" % 10 ** e)),
    dunit=st.sampled_from(["pc", "kpc", "AU", "lyr"]),
    proj=st.sampled_from(["CAR", "TAN", "SIN"])))


def OFF(lo, hi):
    """Limits that are not at a frequency of the grid"""
    return st.floats(lo, hi).map(lambda x: float("%.6g" % x) * 1.000217)


CHAN = st.fixed_dictionaries(dict(
    dv=st.floats(-1, 3).map(lambda e: float("%.4g" % 10 ** e)),
    sign=st.sampled_from([1., -1.]),
    vunit=st.sampled_from(["m/s", "km/s", "Hz"])))


def header(g, shape, chan=None, beam=None):
    from astropy.io import fits
    if len(shape) == 3:
        h = gen.header3(shape, beam=beam, pix=g["pix"])
        chan = chan or dict(dv=100., sign=1., vunit="m/s")
        h["CDELT3"] = chan["dv"] * chan["sign"]
        h["CUNIT3"] = chan["vunit"]
        if chan["vunit"] == "Hz":
            h["CTYPE3"] = "FREQ"
            h["CRVAL3"] = 1.42e9
    else:
        h = gen.header2(shape, beam=beam, pix=g["pix"])
    h["CTYPE1"], h["CTYPE2"] = "RA---" + g["proj"], "DEC--" + g["proj"]
    f = u.deg.to(g["cunit"])
    h["CUNIT1"] = h["CUNIT2"] = g["cunit"]
    t = np.deg2rad(g["rot"])
    p = g["pix"] * f
    if g["cd"] or g["rot"]:
        cd3 = h.get("CDELT3")
        for k in ("CDELT1", "CDELT2", "CDELT3"):
            if k in h:
                del h[k]
        if g["cd"]:
            h["CD1_1"], h["CD1_2"] = -p * np.cos(t), -p * np.sin(t)
            h["CD2_1"], h["CD2_2"] = -p * np.sin(t), p * np.cos(t)
            if cd3 is not None:
                h["CD3_3"] = cd3
        else:
            h["CDELT1"], h["CDELT2"] = -p, p
            h["PC1_1"], h["PC1_2"] = np.cos(t), np.sin(t)
            h["PC2_1"], h["PC2_2"] = -np.sin(t), np.cos(t)
            if cd3 is not None:
                h["CDELT3"] = cd3
                h["PC3_3"] = 1.
    else:
        h["CDELT1"], h["CDELT2"] = -p, p
    return h


def distance(g):
    return (g["dist"] * u.pc).to(g["dunit"])


def length(g, pixels, unit):
    """Pixels as a length in the given unit (independent of TurbuStat)"""
    pixels = np.asarray(pixels, dtype=float)
    unit = u.Unit(unit)
    deg = pixels * g["pix"]
    if unit.is_equivalent(u.deg):
        return (deg * u.deg).to(unit)
    return (deg * np.pi / 180. * g["dist"] * u.pc).to(unit)


def freq(g, f, unit):
    """Cycles per pixel as an inverse length"""
    return 1. / length(g, 1. / np.asarray(f, dtype=float), unit)


LOOSE = dict(rtol=1e-7, atol=1e-12)
LIMITS = ["ps1D", "freqs", "slope", "slope_err", "low_cut", "high_cut"]


def results(o, names):
    return stats.collect(o, [n for n in names if hasattr(o, n)])


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(["PowerSpectrum", "VCA", "MVC"]), seed=gen.SEED,
    unit=UNIT, unit2=UNIT, grid=GRID, lo=OFF(0.03, 0.12),
    hi=OFF(0.25, 0.6), brk=st.sampled_from([None, None, 0.15]),
    two=st.booleans(), unbinned=st.booleans())), quick=160, thorough=3000,
    rule="frequency limits and breaks in angular and physical units are "
         "those in pixels")
def frequencies(c):
    g = c["grid"]
    s = stats.STATS()[c["stat"]]
    data, _ = stats.data_for(s, c["seed"])
    h = header(g, data.shape)
    h2 = gen.header3(data.shape) if data.ndim == 3 else \
        gen.header2(data.shape)

    def run(o, lo, hi, brk):
        kw = dict(low_cut=lo, high_cut=hi, fit_2D=c["two"],
                  fit_2D_kwargs=dict(bootstrap=False))
        fk = {}
        if c["unbinned"]:
            kw["fit_unbinned"] = True
        if brk is not None:
            fk["brk"] = brk
            fk["log_break"] = False
        stats.quiet(o.run, fit_kwargs=fk, **kw)
        return results(o, LIMITS + ["brk"] + (["slope2D"] if c["two"]
                                              else []))

    b = c["brk"]
    o = s.new(data, h, 0, distance=distance(g))
    again = lambda: run(
        o, freq(g, c["lo"], c["unit"]), freq(g, c["hi"], c["unit2"]),
        None if b is None else freq(g, b, c["unit"]))
    try:
        want = run(s.new(data, h2, 0), c["lo"] / u.pix, c["hi"] / u.pix,
                   None if b is None else b / u.pix)
    except ValueError:
        # no power below the break: refused in all units
        raises(ValueError, again, "a break outside of the fitted range")
        return False
    got = again()
    f2 = got.pop("slope2D", None), want.pop("slope2D", None)
    stats.same(got, want, "%s with limits in %s and %s" % (
        c["stat"], c["unit"], c["unit2"]), **LOOSE)
    if f2[1] is not None:
        close(f2[0], f2[1], "slope2D", rtol=1e-3, atol=1e-3)
    return True


GRIDS = {"DeltaVariance": [2., 2.7, 3.5, 4.6, 5.5, 6.3, 7.2],
         "Wavelet": [1.5, 2., 2.6, 3.3, 4.4, 5.7, 7.1],
         "SCF": [-4., -2., 0., 2., 4.], "Tsallis": [1., 2., 5.],
         "StatMoments": [4.], "Genus": [1.2, 1.6, 2.2]}


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(sorted(GRIDS)), seed=gen.SEED, unit=UNIT,
    unit2=UNIT, grid=GRID, opt=st.integers(0, 5),
    lim=st.booleans(), brk=st.booleans(),
    lo=OFF(2.2, 3.2), hi=OFF(5.8, 7.))), quick=240,
    thorough=4000,
    rule="lags, scales, radii, limits and breaks in angular and physical "
         "units are those in pixels")
def lengths(c):
    from turbustat.statistics import (DeltaVariance, Wavelet, SCF, Tsallis,
                                      StatMoments, Genus)
    g = c["grid"]
    name = c["stat"]
    s = stats.STATS()[name]
    data, _ = stats.data_for(s, c["seed"])
    h = header(g, data.shape)
    h2 = gen.header3(data.shape) if data.ndim == 3 else \
        gen.header2(data.shape)

    def run(hdr, size, size2, **kw):
        """size, size2: pixels -> the quantity to give"""
        x = size(GRIDS[name])
        fit = {}
        if c["lim"]:
            fit = dict(xlow=size2(c["lo"]), xhigh=size(c["hi"]))
            if name == "SCF":
                fit = dict(xlow=size2(1.5), xhigh=size(4.2))
        if c["brk"] and name in ("DeltaVariance", "Wavelet"):
            fit["brk"] = size2(4.)
        if name == "DeltaVariance":
            o = stats.quiet(DeltaVariance, data, header=hdr, lags=x, **kw)
            stats.quiet(o.run, show_progress=False, **fit)
            return results(o, ["delta_var", "delta_var_error", "slope",
                               "slope_err", "brk", "fit_range", "lags"])
        if name == "Wavelet":
            o = stats.quiet(Wavelet, data, header=hdr, scales=x, **kw)
            stats.quiet(o.run, show_progress=False, **fit)
            require(o.scales.unit == x.unit, "scales in %s" % o.scales.unit)
            close(o.scales.value, x.value, "scales")
            return results(o, ["values", "stddev", "slope", "slope_err",
                               "brk"])
        if name == "SCF":
            o = stats.quiet(SCF, data, header=hdr, roll_lags=x, **kw)
            stats.quiet(o.run, show_progress=False,
                        fit_2D_kwargs=dict(bootstrap=False), **fit)
            require(o.roll_lags.unit == x.unit, "lags in %s" %
                    o.roll_lags.unit)
            lags = gen._arr(o.lags) / x.value.max() * 4.
            out = results(o, ["scf_surface", "scf_spectrum", "slope",
                              "slope_err"])
            out["lags"] = lags
            out["xlow"] = np.array(gen.to_pix(
                o.xlow, 0.01 if hdr is h2 else g["pix"], g["dist"]))
            return out
        if name == "Tsallis":
            o = stats.quiet(Tsallis, data, header=hdr, lags=x, **kw)
            stats.quiet(o.make_tsallis, periodic=bool(c["opt"] % 2))
            return {"arrays": np.asarray(o.lag_arrays),
                    "distribs": np.asarray(o.lag_distribs)}
        if name == "StatMoments":
            o = stats.quiet(StatMoments, data, header=hdr, radius=x[0], **kw)
            stats.quiet(o.run, show_progress=False)
            return results(o, ["mean_array", "kurtosis_array",
                               "variance_array", "skewness_hist"])
        # noise gives regions of a few pixels
        noisy = data + np.random.RandomState(c["seed"] % 2 ** 32).normal(
            size=data.shape) * np.std(data) * 4
        o = stats.quiet(Genus, (noisy, hdr), smoothing_radii=x if c["opt"] % 2 else
                        None, numpts=10,
                        **kw)
        size_kw = {}
        if c["lim"]:
            # (a number is an area in pixels)
            size_kw = dict(min_size=size2(2.2) ** 2
                           if c["brk"] and hdr is h else 4)
        stats.quiet(o.run, **size_kw)
        return results(o, ["genus_stats", "thresholds"])

    pixels = lambda x: np.asarray(x, dtype=float) * u.pix
    # the results on a grid of unit pixels with lengths in pixels ...
    try:
        want = run(h2, pixels, pixels)
    except Warning:
        return False        # too few points left for a break
    # ... are those for lengths in other units, converted for each grid
    got = run(h, lambda x: length(g, x, c["unit"]),
              lambda x: length(g, x, c["unit2"]), distance=distance(g))
    what = "%s with lengths in %s and %s" % (name, c["unit"], c["unit2"])
    if "slope_err" in want:     # (more sensitive to rounding)
        close(got.pop("slope_err"), want.pop("slope_err"),
              what + ": slope error", rtol=1e-4, atol=1e-7)
    stats.same(got, want, what, **LOOSE)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, unit=UNIT, unit2=UNIT, grid=GRID, chan=CHAN,
    bunit=st.sampled_from(["deg", "arcmin", "arcsec", "rad"]),
    beam=st.floats(0.7, 3.))),
    quick=40, thorough=800,
    rule="PCA limits, beam sizes and widths in any unit are those in pixels")
def pca(c):
    from turbustat.statistics import PCA
    g = c["grid"]
    data = stats.smooth((20, 18, 19), c["seed"], 3.)
    h = header(g, data.shape, c["chan"])
    h2 = gen.header3(data.shape, beam=c["beam"] * 0.01)
    if not u.Unit(c["chan"]["vunit"]).is_equivalent(u.m / u.s):
        raises(Warning, lambda: PCA((data, h)),
               "PCA of a cube without a velocity axis")
        return False

    def run(hdr, size, beam, **kw):
        o = stats.quiet(PCA, (data, hdr), **kw.pop("new", {}))
        stats.quiet(o.compute_pca, mean_sub=False, n_eigs=8, min_eigval=None)
        # errors of the contours are resampled
        state = np.random.get_state()
        np.random.seed(c["seed"] % 2 ** 32)
        try:
            stats.quiet(o.find_spatial_widths, method="contour",
                        brunt_beamcorrect=True, beam_fwhm=beam)
        finally:
            np.random.set_state(state)
        stats.quiet(o.find_spectral_widths, method="walk-down")
        w = o.spatial_width(u.pix).value
        stats.quiet(o.fit_plaw, fit_method="bayes" if 0 else "odr",
                    xlow=size(0.5 * np.nanmin(w)),
                    xhigh=size(1.01 * np.nanmax(w)))
        return o

    try:
        a = run(h2, lambda x: x * u.pix, c["beam"] * 0.01 * u.deg)
    except Warning:
        return False
    b = run(h, lambda x: length(g, x, c["unit"]),
            length(g, c["beam"], c["bunit"]),
            new=dict(distance=distance(g)))
    for n in ("spatial_width", "spatial_width_error"):
        want = getattr(a, n)(u.pix).value
        close(getattr(b, n)(u.pix).value, want, n, rtol=1e-6)
        for un in (c["unit"], c["unit2"]):
            q = getattr(b, n)(u.Unit(un))
            require(q.unit == u.Unit(un), "%s in %s" % (n, q.unit))
            close(q.value, length(g, want, un).value, n + " in " + un,
                  rtol=1e-6)
    want = a.spectral_width(u.pix).value
    cu = u.Unit(c["chan"]["vunit"])
    close(b.spectral_width(cu).to(cu).value, want * c["chan"]["dv"],
          "spectral widths", rtol=1e-6)
    if cu.is_equivalent(u.m / u.s):
        close(b.spectral_width(u.cm / u.s).value,
              (want * c["chan"]["dv"] * cu).to(u.cm / u.s).value,
              "spectral widths", rtol=1e-6)
    if np.isfinite(a.index):
        close(b.index, a.index, "index", rtol=1e-5)
        # the intercept is the line width at one pixel
        close(b.intercept(cu).value, a.intercept(u.pix).value *
              c["chan"]["dv"], "intercept", rtol=1e-4)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, chan=CHAN, lo=OFF(0.03, 0.1),
    hi=OFF(0.25, 0.45), unit=st.sampled_from(["axis", "other"]),
    brk=st.sampled_from([None, -0.8]), grid=GRID)), quick=60, thorough=1500,
    rule="spectral limits of VCS and channel widths of VCA in velocity (or "
         "frequency) are those in channels")
def spectral(c):
    from turbustat.statistics import VCS, VCA
    ch = c["chan"]
    data = stats.smooth((40, 9, 8), c["seed"], 2.5)
    cu = u.Unit(ch["vunit"])
    other = {"m/s": u.km / u.hour, "km/s": u.cm / u.s, "Hz": u.MHz}[
        ch["vunit"]]
    un = cu if c["unit"] == "axis" else other
    h = header(c["grid"], data.shape, ch)
    h2 = gen.header3(data.shape)
    a = stats.quiet(VCS, data, header=h2)
    stats.quiet(a.run, low_cut=c["lo"] / u.pix, high_cut=c["hi"] / u.pix,
                breaks=c["brk"], log_break=True)
    b = stats.quiet(VCS, data, header=h)
    conv = lambda f: 1. / (ch["dv"] / f * cu).to(un)
    stats.quiet(b.run, low_cut=conv(c["lo"]), high_cut=conv(c["hi"]),
                breaks=c["brk"], log_break=True)
    N = ["ps1D", "freqs", "slope", "slope_err", "low_cut", "high_cut", "brk"]
    stats.same(results(b, N), results(a, N), "VCS with limits in 1/(%s)" %
               un, **LOOSE)
    if ch["vunit"] == "Hz":
        return True
    for k in (2.4, 3.7):
        v1 = stats.quiet(VCA, data, header=h2,
                         channel_width=k * 100. * u.m / u.s)
        v2 = stats.quiet(VCA, data, header=h,
                         channel_width=(k * ch["dv"] * cu).to(un))
        stats.quiet(v1.compute_pspec)
        stats.quiet(v2.compute_pspec)
        close(v2.ps2D, v1.ps2D, "VCA with channels of %s" % un, rtol=1e-6)
    return True


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(["PowerSpectrum", "DeltaVariance", "Wavelet",
                          "SCF", "Tsallis", "StatMoments"]),
    seed=gen.SEED, bad=st.sampled_from(["distance", "kind", "number"]),
    unit=st.sampled_from(PHYS), kind=st.sampled_from(["s", "K", "kg",
                                                      "m/s"]))),
    quick=60, thorough=600,
    rule="physical units without a distance, units of other kinds and "
         "numbers without units are refused")
def refused(c):
    from turbustat.statistics import (DeltaVariance, Wavelet, SCF, Tsallis,
                                      StatMoments)
    s = stats.STATS()[c["stat"]]
    data, h = stats.data_for(s, c["seed"])
    unit = u.Unit({"distance": c["unit"], "kind": c["kind"],
                   "number": ""}[c["bad"]])
    x = np.array(GRIDS.get(c["stat"], [1.]))
    q = x * unit
    if c["bad"] == "number" and c["stat"] in ("DeltaVariance", "SCF"):
        return False          # numbers are documented to be pixels there
    if c["stat"] == "PowerSpectrum":
        o = s.new(data, h, 0)
        stats.quiet(o.compute_pspec)
        stats.quiet(o.compute_radial_pspec)
        fn = lambda: o.fit_pspec(low_cut=0.05 / unit, high_cut=0.4 / unit)
    elif c["stat"] == "DeltaVariance":
        fn = lambda: DeltaVariance(data, header=h, lags=q)
    elif c["stat"] == "Wavelet":
        fn = lambda: Wavelet(data, header=h, scales=q)
    elif c["stat"] == "SCF":
        fn = lambda: SCF(data, header=h, roll_lags=q)
    elif c["stat"] == "Tsallis":
        fn = lambda: Tsallis(data, header=h, lags=q)
    else:
        fn = lambda: StatMoments(data, header=h, radius=q[0])
    raises(Exception, lambda: stats.quiet(fn), "%s accepts lengths in %r" % (
        c["stat"], str(unit)))
    # distances to the object that are none
    for bad in (250., [250.] * u.pc, [250., 250.] * u.pc, 250. * u.deg,
                250. * u.pix, "250 pc"):
        if s.name in ("SCF", "Tsallis", "StatMoments"):
            break
        raises(Exception, lambda: s.new(data, h, 0, distance=bad),
               "%s accepts %r as distance" % (c["stat"], bad))
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, g1=GRID, g2=GRID, unit=st.sampled_from(ANG),
    which=st.sampled_from(["pspec", "vca", "delvar", "moments"]))),
    quick=48, thorough=800,
    rule="distances convert angular limits, lags and radii with the pixel "
         "size of each dataset")
def two_grids(c):
    """The second dataset has pixels up to twice as large"""
    from turbustat.statistics import (PSpec_Distance, VCA_Distance,
                                      PowerSpectrum, VCA)
    g1 = c["g1"]
    fac = 1. + (c["seed"] % 100) / 200.
    g2 = dict(c["g2"], pix=g1["pix"] * fac)
    n = 3 if c["which"] == "vca" else 2
    shape = (10, 20, 22)[3 - n:]
    d1 = stats.smooth(shape, c["seed"])
    d2 = stats.smooth(shape, c["seed"] + 1, 3.)
    h1, h2 = header(g1, shape), header(g2, shape)
    if c["which"] in ("pspec", "vca"):
        lo, hi = freq(g1, 0.07, c["unit"]), freq(g1, 0.3, c["unit"])
        D, S = (PSpec_Distance, PowerSpectrum) if n == 2 else (
            VCA_Distance, VCA)
        d = stats.quiet(D, (d1, h1), (d2, h2), low_cut=lo, high_cut=hi)
        stats.quiet(d.distance_metric)
        sl = []
        for dat, hdr, f in ((d1, h1, 1.), (d2, h2, fac)):
            s = stats.quiet(S, dat, header=hdr)
            stats.quiet(s.run, low_cut=0.07 * f / u.pix,
                        high_cut=0.3 * f / u.pix, fit_2D=False)
            sl.append((s.slope, s.slope_err))
        want = abs(sl[0][0] - sl[1][0]) / np.hypot(sl[0][1], sl[1][1])
        close(d.distance, want, "distance", rtol=1e-6)
    elif c["which"] == "delvar":
        from turbustat.statistics import DeltaVariance_Distance, DeltaVariance
        px = np.array([3., 4., 5., 6.])
        d = stats.quiet(DeltaVariance_Distance, (d1, h1), (d2, h2),
                        lags=length(g1, px, c["unit"]))
        stats.quiet(d.distance_metric)
        v = []
        for dat, hdr, f in ((d1, h1, 1.), (d2, h2, fac)):
            s = stats.quiet(DeltaVariance, dat, header=hdr,
                            lags=px / f * u.pix)
            stats.quiet(s.run, show_progress=False)
            v.append(s)
        close(d.delvar1.delta_var, v[0].delta_var, "first curve", rtol=1e-6)
        close(d.delvar2.delta_var, v[1].delta_var, "second curve", rtol=1e-6)
    else:
        from turbustat.statistics import StatMoments_Distance, StatMoments
        d = stats.quiet(StatMoments_Distance, (d1, h1), (d2, h2),
                        radius=length(g1, 5., c["unit"]))
        stats.quiet(d.distance_metric)
        for dat, hdr, f, m in ((d1, h1, 1., d.moments1),
                               (d2, h2, fac, d.moments2)):
            s = stats.quiet(StatMoments, dat, header=hdr,
                            radius=5. / f * u.pix)
            stats.quiet(s.compute_spatial_distrib, show_progress=False)
            close(m.skewness_array, s.skewness_array, "skewness", rtol=1e-6,
                  atol=1e-9)
    return abs(fac - 1.) > 0.02
