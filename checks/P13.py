"""Spectral correlation function."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet, Violation
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import SCF
from turbustat.statistics.psds import pspec
from turbustat.statistics.fitting_utils import residual_bootstrap

RULE = "the surface varies with the lag"

cubes = gen.fields(gen.shapes3(2, 6, 6, 14),
                   kinds=["noise", "lognormal", "powerlaw", "ints", "blobs",
                          "spike", "gradient"],
                   nan=(0, 0, 0.05, 0.3))


def shift1(a, s, axis):
    """Periodic shift by s pixels (trigonometric interpolation between)."""
    n = a.shape[axis]
    if float(s).is_integer():
        return np.take(a, (np.arange(n) - int(s)) % n, axis=axis)
    bad = ~np.isfinite(a)
    x = np.moveaxis(np.where(bad, 0., a), axis, 0)
    k = np.fft.fftfreq(n) * n
    j = np.arange(n)
    # dense interpolation matrix: real part of inverse DFT with shifted phases
    M = np.real(np.exp(2j * np.pi * np.multiply.outer(j - s, k) / n)
                @ np.exp(-2j * np.pi * np.multiply.outer(k, j) / n)) / n
    y = np.moveaxis(np.tensordot(M, x, axes=(1, 0)), 0, axis)
    b = np.moveaxis(bad.astype(float), axis, 0)
    w = np.moveaxis(np.tensordot(M, b, axes=(1, 0)), 0, axis)
    y = y.copy()
    y[w > 0.5 + 1e-9] = np.nan
    near = np.abs(w - 0.5) <= 1e-9
    return y, near.any()


def value(p, q):
    """1 - rms over positions of the normalised spectral difference"""
    num = np.nansum((p - q) ** 2, axis=0)
    den = np.nansum(p ** 2, axis=0) + np.nansum(q ** 2, axis=0)
    ok = den > 0
    if not ok.any():
        return np.nan
    return 1 - np.sqrt((num[ok] / den[ok]).mean())


def surface(a, lags, boundary="continuous"):
    out = np.empty((len(lags), len(lags)))
    amb = False
    for i, dx in enumerate(lags):
        for j, dy in enumerate(lags):
            t = a
            for s, ax in ((dx, 1), (dy, 2)):
                t = shift1(t, s, ax)
                if isinstance(t, tuple):
                    amb |= t[1]
                    t = t[0]
            if boundary == "continuous":
                out[j, i] = value(a, t)
            else:
                sx = slice(int(dx), None) if dx >= 0 else slice(None, int(dx))
                sy = slice(int(dy), None) if dy >= 0 else slice(None, int(dy))
                out[j, i] = value(a[:, sx, sy], t[:, sx, sy])
    return out, amb


def cut_surface_known_defect(a, lags):
    """What boundary='cut' computes today (known_findings.txt): the rolled
    cube is trimmed on the wrong side, so pixels 2 lags apart are compared."""
    out = np.empty((len(lags), len(lags)))
    ny, nx = a.shape[1:]
    for i, dx in enumerate(lags):
        for j, dy in enumerate(lags):
            t = np.roll(a, (int(dx), int(dy)), axis=(1, 2))
            sd, stmp = [slice(None)], [slice(None)]
            for s, n in ((int(dx), ny), (int(dy), nx)):
                if s < 0:
                    sd.append(slice(None, n + s))
                    stmp.append(slice(-s, None))
                else:
                    sd.append(slice(s, None))
                    stmp.append(slice(None, n - s))
            out[j, i] = value(a[tuple(sd)], t[tuple(stmp)])
    return out


lagspec = st.one_of(
    st.sampled_from([3, 5, 7, 4, 6]).map(lambda n: dict(kind="size", n=n)),
    st.tuples(st.integers(1, 2), st.sampled_from(
        [0.5, 0.75, 1., 1.5, 2., 1.25, 1.04, 0.96, 1.93]),
        st.sampled_from(["pix", "deg", "arcmin", "pc", "none"]),
        st.sampled_from([0, 0, 0, 1])).map(
            lambda t: dict(kind="lags", n=2 * t[0] + 1, step=t[1],
                           unit=t[2], extra=t[3])))


def make(a, spec):
    hdr = gen.header3(a.shape, pix=0.01)
    if spec["kind"] == "size":
        n = spec["n"] - (spec["n"] % 2 == 0)
        return SCF(a, header=hdr, size=spec["n"]), np.arange(n) - n // 2
    n = spec["n"]
    # an even number of lags loses its last one
    full = (np.arange(n + spec.get("extra", 0)) - n // 2) * spec["step"]
    lags = full[:n]
    kw = {}
    if spec["unit"] == "pix":
        q = full * u.pix
    elif spec["unit"] == "none":
        q = full.astype(float)
    elif spec["unit"] == "deg":
        q = full * 0.01 * u.deg
    elif spec["unit"] == "arcmin":
        q = full * 0.6 * u.arcmin
    else:
        kw["distance"] = 100 * u.pc
        q = full * np.deg2rad(0.01) * 100 * u.pc
    return SCF(a, header=hdr, roll_lags=q, **kw), lags


@facet(st.fixed_dictionaries(dict(f=cubes, lags=lagspec)), quick=200,
       thorough=8000, rule="surface from the definition, one lag at a time")
def surface_values(c):
    a = gen.build(c["f"])
    if c["f"]["kind"] == "ints" and c["lags"].get("step", 1) % 1:
        a = a + 0.37    # zeros are not preserved by the interpolation
    keep = a.copy()
    s, lags = make(a, c["lags"])
    pix = gen.to_pix(s.roll_lags, dist=100)
    close(pix, lags, "lags in pixels", rtol=1e-9)
    # unit round-off can turn whole-pixel lags into fractional ones
    whole = all(float(v).is_integer() for v in lags)
    if np.isnan(a).any() and whole and \
            c["lags"].get("unit", "pix") not in ("pix", "none"):
        a = np.where(np.isnan(a), 0.1, a)
        s, lags = make(a, c["lags"])
        keep = a.copy()
    s.compute_surface(show_progress=False)
    close(a, keep, "input cube", rtol=0)
    want, amb = surface(a, lags)
    if amb:
        return False
    if not np.isfinite(want).all():
        return False
    close(s.scf_surface, want, "SCF surface", rtol=1e-8, scale=1.)
    n = len(lags) // 2
    require(abs(s.scf_surface[n, n] - 1) < 1e-12, "zero lag is not one")
    require(s.scf_surface.max() <= 1 + 1e-12, "correlation above one")
    return np.ptp(s.scf_surface) > 1e-6


@facet(st.fixed_dictionaries(dict(f=cubes, size=st.sampled_from([3, 5, 7]),
                                  how=st.booleans())),
       quick=60, thorough=2000,
       rule="boundary='cut' agrees with its definition, or deviates exactly "
            "as recorded in known_findings.txt")
def cut_boundary(c):
    a = gen.build(c["f"])
    if not np.isfinite(a).all():
        a = np.where(np.isfinite(a), a, 0.5)
    s = SCF(a, header=gen.header3(a.shape), size=c["size"])
    b = "".join(["c", "ut"]) if c["how"] else "cut"
    s.compute_surface(boundary=b, show_progress=False)
    lags = np.arange(c["size"]) - c["size"] // 2
    right, _ = surface(a, lags, "cut")
    try:
        close(s.scf_surface, right, "SCF surface with cut edges", rtol=1e-8,
              scale=1.)
    except Violation:
        close(s.scf_surface, cut_surface_known_defect(a, lags),
              "SCF surface with cut edges", rtol=1e-8, scale=1.)
    return np.ptp(s.scf_surface) > 1e-6


@facet(st.fixed_dictionaries(dict(f=cubes, size=st.sampled_from([3, 5, 7]),
                                  seed=gen.SEED)), quick=60, thorough=2000,
       rule="point symmetry, scaling, channel order, periodic shifts, "
            "transposes")
def symmetries(c):
    a = gen.build(dict(c["f"]))
    rng = np.random.RandomState(c["seed"] % 2 ** 32)

    def surf(x):
        s = SCF(x, header=gen.header3(x.shape), size=c["size"])
        s.compute_surface(show_progress=False)
        return s.scf_surface
    s0 = surf(a)
    if not np.isfinite(s0).all():
        return False
    kw = dict(rtol=1e-8, scale=1.)
    if np.isfinite(a).all():
        close(s0[::-1, ::-1], s0, "point symmetry", **kw)
    close(surf(-4. * a), s0, "scaled cube", **kw)
    close(surf(a[rng.permutation(a.shape[0])]), s0, "channel order", **kw)
    close(surf(np.roll(a, (int(rng.randint(9)), int(rng.randint(9))),
                       axis=(1, 2))), s0, "periodic shift", **kw)
    close(surf(np.ascontiguousarray(a.transpose(0, 2, 1))), s0.T,
          "transposed sky", **kw)
    close(surf(np.ascontiguousarray(a[:, ::-1, ::-1])), s0[::-1, ::-1],
          "half turn", **kw)
    close(surf(np.concatenate([a, a])), s0, "duplicated channels", **kw)
    return np.ptp(s0) > 1e-6


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(3, 6, 8, 14), kinds=["lognormal", "powerlaw",
                                                  "blobs", "noise"],
                 nan=(0,), offsets=(3.,), scales=(1.,)),
    lags=lagspec, lo=st.sampled_from([None, 0.6, 1.1, 1.7]),
    hi=st.sampled_from([None, 2.6, 3.3]),
    exact=st.booleans(), unit=st.sampled_from(["pix", "deg", "arcmin"]))),
    quick=150, thorough=4000,
    rule="radial profile in annuli of the lag plane; weighted least squares "
         "between the limits")
def spectrum_and_fit(c):
    a = gen.build(c["f"])
    s, lags = make(a, c["lags"])
    s.compute_surface(show_progress=False)
    s.compute_spectrum()
    n = len(lags)
    g = np.arange(n) - n // 2
    dist = np.hypot(*np.meshgrid(g, g, indexing="ij"))
    edges = ref.radial_edges((n, n), freqs=False)
    r = ref.Radial(dist, s.scf_surface, edges)
    r.compare(s.scf_spectrum, s.scf_spectrum_stddev, "SCF spectrum")
    s2 = make(a, c["lags"])[0]
    s2.compute_spectrum()          # computes the surface first
    close(s2.scf_spectrum, s.scf_spectrum, "spectrum without a surface",
          rtol=1e-9)
    step = lags[1] - lags[0]
    cent = 0.5 * (edges[1:] + edges[:-1]) * step
    pl = gen.to_pix(s.lags, dist=100)
    close(pl, cent, "lags", rtol=1e-8)
    lo = None if c["lo"] is None else c["lo"] * step
    hi = None if c["hi"] is None else c["hi"] * step
    if c["exact"] and c["unit"] == "pix" and s.lags.unit == u.pix:
        # limits on one of the lags, which then is part of the fit
        own = s.lags.value
        pl = own.copy()
        lo, hi = [None if v is None else own[np.argmin(np.abs(own - v))]
                  for v in (lo, hi)]
    for v in (lo, hi):
        if v is not None and not (pl == v).any() and \
                np.abs(pl - v).min() < 1e-8:
            return False
    conv = {"pix": lambda v: v * u.pix, "deg": lambda v: v * 0.01 * u.deg,
            "arcmin": lambda v: v * 0.6 * u.arcmin}[c["unit"]]
    keep = np.ones(pl.size, bool)
    kw = {}
    if lo is not None:
        keep &= pl >= lo
        kw["xlow"] = conv(lo)
    if hi is not None:
        keep &= pl <= hi
        kw["xhigh"] = conv(hi)
    if not keep.any():
        raises(ValueError, lambda: s.fit_plaw(**kw), "empty fit range")
        return False
    sp, sd = s.scf_spectrum[keep], s.scf_spectrum_stddev[keep]
    ok = np.isfinite(sp) & (sp > 0) & np.isfinite(sd)
    if (~ok & np.isfinite(sp)).any() or ok.sum() < 3 or \
            (sd[ok] < 1e-6 * sp[ok]).any():
        return False
    s.fit_plaw(**kw)
    x, y = np.log10(pl[keep][ok]), np.log10(sp[ok])
    b, e = ref.ols(x, y, sd[ok] ** -2)
    close(s.slope, b[1], "slope", rtol=1e-6, scale=abs(b[1]) + 1e-3)
    sw = 1 / sd[ok]
    A = np.vstack([sw, x * sw]).T
    Q = np.linalg.qr(A)[0]
    if ((Q ** 2).sum(1) < 0.999).all():   # HC3 is ill-conditioned otherwise
        close(s.slope_err, e[1], "slope error", rtol=1e-3,
              scale=e[1] + 1e-6)
    close(s.fitted_model(conv(2.3)), 10 ** (b[0] + b[1] * np.log10(2.3)),
          "fitted model", rtol=1e-6)
    return True


@facet(st.fixed_dictionaries(dict(
    q=st.integers(30, 80), theta=st.integers(5, 175), gamma=st.integers(3, 9),
    n=st.sampled_from([7, 9]), step=st.sampled_from([1., 2.]),
    p0=st.booleans())),
    quick=30, thorough=500,
    rule="2D fits of an exactly elliptical surface return its index, axis "
         "ratio and angle")
def fit_2d(c):
    a = np.random.RandomState(1).rand(2, 12, 12)
    n = c["n"]
    lags = (np.arange(n) - n // 2) * c["step"]
    s = SCF(a, header=gen.header3(a.shape), roll_lags=lags * u.pix)
    g = np.arange(n) - n // 2
    yy, xx = np.meshgrid(g, g, indexing="ij")
    q, th, gam = c["q"] / 100., np.deg2rad(c["theta"]), -c["gamma"] / 10.
    xr = xx * np.cos(th) - yy * np.sin(th)
    yr = xx * np.sin(th) + yy * np.cos(th)
    with np.errstate(all="ignore"):
        surf = 10 ** (-0.2 + gam * 0.5 * np.log10((q * xr) ** 2 + yr ** 2))
    surf[n // 2, n // 2] = 1.
    s.compute_surface(show_progress=False)
    s._scf_surface = surf
    if s.scf_surface is not surf:
        return False        # cannot prescribe a surface
    s.compute_spectrum()
    kw = dict(bootstrap=False)
    if not c["p0"] and np.nanmin(s.scf_spectrum_stddev) > 1e-8:
        s.fit_plaw()
    else:
        kw["p0"] = (-0.2, 0., np.pi / 2., gam)
    s.fit_2Dplaw(xlow=0.5 * c["step"] * u.pix,
                 xhigh=(n // 2 + .5) * c["step"] * u.pix, **kw)
    require(abs(s.slope2D - gam) < 1e-3, "index %r, expected %r" % (
        s.slope2D, gam))
    require(abs(s.ellip2D - q) < 1e-3, "axis ratio %r, expected %r" % (
        s.ellip2D, q))
    d = min(abs((s.theta2D - t + np.pi / 2) % np.pi - np.pi / 2)
            for t in (th, np.pi - th))
    require(d < 1e-3, "angle %r, expected %r (either handedness)" % (
        s.theta2D, th))
    return True


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(2, 4, 12, 16), kinds=["noise", "positive"],
                 nan=(0,)),
    t0=st.integers(-170, 170), dt=st.integers(50, 150),
    nbins=st.sampled_from([None, 3, 4]), n=st.sampled_from([7, 9]),
    q=st.integers(30, 80), theta=st.integers(5, 175),
    seed=st.integers(0, 1000))), quick=40, thorough=1000,
    rule="azimuthal limits restrict the spectrum and the 2D fit to the "
         "wedge; bootstrapping changes the error only")
def wedges(c):
    a = gen.build(c["f"])
    n = c["n"]
    lags = (np.arange(n) - n // 2) * 1.
    s = SCF(a, header=gen.header3(a.shape), roll_lags=lags * u.pix)
    s.compute_surface(show_progress=False)
    kw = dict(theta_0=c["t0"] * u.deg, delta_theta=c["dt"] * u.deg)
    if c["nbins"]:
        kw["nbins"] = c["nbins"]
    given = dict(kw)
    s.compute_spectrum(**kw)
    require(kw == given, "options changed")
    cent, prof, dev, wedge = pspec(s.scf_surface, return_stddev=True,
                                   logspacing=False, return_freqs=False,
                                   **kw)
    close(gen.to_pix(s.lags), cent, "lags", rtol=1e-9)
    close(s.scf_spectrum, prof, "spectrum of the wedge", rtol=1e-9)
    close(s.scf_spectrum_stddev, dev, "deviation in the wedge", rtol=1e-9)
    # the rest of the surface has no influence
    p = s.scf_surface.copy()
    s._scf_surface = np.where(wedge, p, 0.37)
    if s.scf_surface is p or (s.scf_surface != np.where(
            wedge, p, 0.37)).any():
        return False        # cannot prescribe a surface
    s.compute_spectrum(**kw)
    close(s.scf_spectrum, prof, "spectrum, other values outside", rtol=1e-9)
    g = np.arange(n) - n // 2
    yy, xx = np.meshgrid(g, g, indexing="ij")
    q, th = c["q"] / 100., np.deg2rad(c["theta"])
    xr = xx * np.cos(th) - yy * np.sin(th)
    yr = xx * np.sin(th) + yy * np.cos(th)
    with np.errstate(all="ignore"):
        surf = 10 ** (-0.2 - 0.25 * np.log10((q * xr) ** 2 + yr ** 2))
    surf[n // 2, n // 2] = 1.
    rng = np.random.RandomState(c["seed"])
    s._scf_surface = np.where(wedge, surf, rng.uniform(.2, .9, surf.shape))
    s.compute_spectrum(**kw)
    fit = dict(xlow=0.5 * u.pix, xhigh=(n // 2 + .5) * u.pix,
               bootstrap=False)
    good = wedge & (np.hypot(yy, xx) < n // 2 + .5)
    done = False
    if good.sum() > 12:
        for guess in (th, np.pi - th, 0., np.pi / 2):
            s.fit_2Dplaw(p0=(-0.2, np.log(q / (1 - q)), guess, -0.5),
                         use_azimmask=True, **fit)
            if abs(s.slope2D + .5) < 1e-3 and abs(s.ellip2D - q) < 1e-3:
                done = True
                break
        require(done, "the fit inside the wedge gives %r, %r, expected "
                "-0.5, %r" % (s.slope2D, s.ellip2D, q))
    s.compute_spectrum()
    close(s.scf_spectrum, pspec(s.scf_surface, logspacing=False,
                                return_freqs=False)[1],
          "spectrum without limits", rtol=1e-9)
    sd = s.scf_spectrum_stddev
    if (np.isfinite(sd) & (sd > 1e-6)).sum() > 3 and \
            not (sd[gen.to_pix(s.lags) > .9] <= 1e-6).any():
        s.fit_plaw(xlow=.9 * u.pix)
        sl = s.slope
        s.fit_plaw(xlow=.9 * u.pix, bootstrap=True, nboot=50,
                   seed=c["seed"])
        close(s.slope, sl, "slope after bootstrapping", rtol=1e-9)
        close(s.slope_err, residual_bootstrap(s.fit, nboot=50,
                                              seed=c["seed"])[1],
              "bootstrapped error", rtol=1e-6)
    return done


@facet(st.integers(0, 10), quick=3, thorough=5, rule="bad options refused")
def refusals(c):
    a = np.random.RandomState(c).rand(3, 6, 6)
    hdr = gen.header3(a.shape)
    s = SCF(a, header=hdr, size=3)
    raises(ValueError, lambda: s.compute_surface(boundary="wrap"),
           "unknown boundary")
    raises(u.UnitConversionError, lambda: SCF(
        a, header=hdr, roll_lags=np.array([-1, 0, 1]) * u.s), "lags in s")
    s.compute_surface(show_progress=False)
    s.compute_spectrum()
    raises(TypeError, lambda: s.fit_plaw(xlow=1.), "bare number as limit")
    raises(TypeError, lambda: s.fit_plaw(xhigh=1.), "bare number as limit")
    raises(TypeError, lambda: s.fitted_model(1.), "bare number as lag")
    return True
