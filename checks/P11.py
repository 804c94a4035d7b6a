"""Elliptical power-law fits of two-dimensional power spectra."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import PowerSpectrum, VCA
from turbustat.statistics.psds import pspec
from turbustat.statistics.elliptical_powerlaw import (
    fit_elliptical_powerlaw, LogEllipticalPowerLaw2D, interval_transform,
    inverse_interval_transform, inverse_interval_transform_stderr,
    interval_transform_stderr)

RULE = "the power is anisotropic and varies with frequency"

pars = dict(q=st.integers(30, 85).map(lambda v: v / 100.),
            theta=st.integers(0, 179).map(lambda v: v * np.pi / 180.),
            gamma=st.one_of(st.integers(-40, -10), st.integers(10, 20)).map(
                lambda v: v / 10.),
            amp=st.integers(-10, 30).map(lambda v: v / 10.))


def logr(x, y, q, theta):
    """log10 of the elliptical radius, from rotated coordinates"""
    xr = x * np.cos(theta) - y * np.sin(theta)
    yr = x * np.sin(theta) + y * np.cos(theta)
    return 0.5 * np.log10((q * xr) ** 2 + yr ** 2)


def angle(a, b):
    return abs((a - b + np.pi / 2) % np.pi - np.pi / 2)


@facet(st.fixed_dictionaries(dict(pars, seed=gen.SEED)), quick=200,
       thorough=10000, rule="closed form in rotated coordinates; half turns "
                            "and quarter turns with swapped axes")
def closed_form(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    x, y = rng.normal(size=(2, 30))
    et = np.log(c["q"]) - np.log(1 - c["q"])
    m = LogEllipticalPowerLaw2D(c["amp"], et, c["theta"], c["gamma"])
    want = c["amp"] + c["gamma"] * logr(x, y, c["q"], c["theta"])
    close(m(x, y), want, "model", rtol=1e-10)
    close(m(-x, -y), want, "half turn", rtol=1e-10)
    c2 = LogEllipticalPowerLaw2D(c["amp"], np.inf, c["theta"], c["gamma"])
    close(c2(x, y), c["amp"] + c["gamma"] * np.log10(np.hypot(x, y)),
          "circular model", rtol=1e-10)
    a, b = sorted(rng.uniform(-5, 5, 2))
    v = rng.uniform(a, b, 20)
    t = interval_transform(v, a, b)
    close(inverse_interval_transform(t, a, b), v, "interval round trip",
          rtol=1e-9)
    require((np.diff(interval_transform(np.sort(v), a, b)) >= 0).all(),
            "interval transform is not increasing")
    d = rng.rand(20)
    close(inverse_interval_transform_stderr(
        interval_transform_stderr(d, v, a, b), t, a, b), d,
        "errors through the transform and back", rtol=1e-7)
    close(inverse_interval_transform_stderr(d, t, a, b),
          d * (v - a) * (b - v) / (b - a), "inverse transform errors",
          rtol=1e-7)
    return True


@facet(st.fixed_dictionaries(dict(
    pars, n=st.integers(10, 24), seed=gen.SEED,
    dg=st.integers(-5, 5), noise=st.sampled_from([0, 0, .02, .1]),
    fix=st.booleans())), quick=60, thorough=1500,
    rule="exact surfaces give back their parameters; errors are those of "
         "the covariance at the solution")
def direct_fit(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    f = ref.shifted_freqs(c["n"])
    yy, xx = np.meshgrid(f, f, indexing="ij")
    k = np.hypot(xx, yy) > 0
    x, y = xx[k], yy[k]
    q = 1. if c["fix"] else c["q"]
    v = c["amp"] + c["gamma"] * logr(x, y, q, c["theta"])
    v = v + c["noise"] * rng.normal(size=v.size)
    p0 = (c["amp"] + .2, 0., np.pi / 2, c["gamma"] * (1 + c["dg"] / 20.))
    keep = v.copy()
    p, err, model, _ = fit_elliptical_powerlaw(
        v, x, y, p0, bootstrap=False, fix_ellip_params=c["fix"])
    require(np.array_equal(v, keep), "values modified")
    require(len(p) == 4 and len(err) == 4, "four parameters and errors")
    if c["fix"]:
        b, _ = ref.ols(np.log10(np.hypot(x, y)), v)
        close([p[0], p[3]], b, "isotropic fit", rtol=1e-5,
              scale=np.abs(b).max() + 1)
        require(np.isnan(err).all() or (err[1] == 0 and err[2] == 0),
                "error on a fixed parameter")
    elif c["noise"] == 0:
        got = inverse_interval_transform(p[1], 0, 1)
        require(abs(got - q) < 1e-5, "axis ratio %r, expected %r" % (got, q))
        require(angle(p[2], c["theta"]) < 1e-5, "angle %r, expected %r" % (
            p[2], c["theta"]))
        require(abs(p[3] - c["gamma"]) < 1e-5, "index %r, expected %r" % (
            p[3], c["gamma"]))
        require(abs(p[0] - c["amp"]) < 1e-4, "amplitude %r" % p[0])
    close(model(x, y), p[0] + p[3] * logr(
        x, y, inverse_interval_transform(p[1], 0, 1), p[2]), "fitted model",
        rtol=1e-8, scale=np.abs(v).max() + 1)
    if c["noise"] == .02 and not c["fix"] and abs(c["gamma"]) >= 1:
        # numerical Jacobian at the solution
        def f_(pp):
            return pp[0] + pp[3] * logr(
                x, y, 1 / (1 + np.exp(-pp[1])), pp[2])
        J = np.empty((x.size, 4))
        for i in range(4):
            h = np.zeros(4)
            h[i] = 1e-5
            J[:, i] = (f_(p + h) - f_(p - h)) / 2e-5
        r = v - f_(p)
        true = least_squares(lambda pp: v - f_(pp), [
            c["amp"], np.log(q / (1 - q)), c["theta"], c["gamma"]])
        require((r ** 2).sum() <= 1.1 * 2 * true.cost + 1e-12,
                "sum of squares %r, minimum %r" % ((r ** 2).sum(),
                                                   2 * true.cost))
        cov = np.linalg.inv(J.T.dot(J)) * (r ** 2).sum() / (x.size - 4)
        if not np.isnan(err).all():
            close(err, np.sqrt(np.diag(cov)), "errors", rtol=0.05)
    return not c["fix"]


def image(shape, q, theta, gamma, amp, seed, garbage=None):
    """Real image with exactly elliptical power-law power."""
    rng = np.random.RandomState(seed % 2 ** 32)
    ph = np.fft.fft2(rng.normal(size=shape))
    ph = ph / np.abs(ph)
    fy = np.fft.fftfreq(shape[0])[:, None] + np.zeros(shape)
    fx = np.fft.fftfreq(shape[1])[None, :] + np.zeros(shape)
    with np.errstate(all="ignore"):
        lp = amp + gamma * logr(fx, fy, q, theta)
    lp[0, 0] = 0.
    # Hermitian symmetry on the Nyquist lines of even axes
    iy = -np.arange(shape[0]) % shape[0]
    ix = -np.arange(shape[1]) % shape[1]
    k = np.hypot(fy, fx)
    if garbage is not None:
        lo, hi = garbage
        noise = rng.normal(size=shape)
        noise = 0.5 * (noise + noise[iy][:, ix])
        lp = np.where((k <= lo) | (k > hi), lp + 2 * noise, lp)
    lp = 0.5 * (lp + lp[iy][:, ix])
    return np.fft.ifft2(10 ** (lp / 2.) * ph).real


@facet(st.fixed_dictionaries(dict(
    pars, shape=gen.shapes2(16, 33), seed=gen.SEED,
    cube=st.booleans(), garbage=st.booleans(), unit=st.sampled_from(
        ["pix", "deg"]), wedge=st.booleans(), p0=st.booleans())),
    quick=80, thorough=2000,
    rule="images with exactly elliptical power inside the fit limits return "
         "their parameters whatever lies outside the limits")
def through_images(c):
    shape = tuple(c["shape"])
    lo, hi = 1.5173 / min(shape), 0.46131
    a = image(shape, c["q"], c["theta"], c["gamma"], c["amp"], c["seed"],
              (lo, hi) if c["garbage"] else None)
    if c["cube"]:
        s = VCA(np.array([a, -a, 2 * a]), header=gen.header3((3,) + shape))
    else:
        s = PowerSpectrum(a, header=gen.header2(shape))
    s.compute_pspec()
    kw = {}
    if c["wedge"]:
        kw = dict(theta_0=0.7 * u.rad, delta_theta=1.2 * u.rad)
    s.compute_radial_pspec(**kw)
    if c["unit"] == "deg":
        lims = dict(low_cut=lo / 0.01 / u.deg, high_cut=hi / 0.01 / u.deg)
    else:
        lims = dict(low_cut=lo / u.pix, high_cut=hi / u.pix)
    p0 = ()
    if c["wedge"]:    # part of the plane: start near the solution
        p0 = (c["amp"], np.log(c["q"] / (1 - c["q"])) + .1,
              c["theta"] + (.05 if c["theta"] < 1.5 else -.05),
              c["gamma"] + .05)
    elif c["p0"] or c["garbage"]:
        p0 = (c["amp"], 0., np.pi / 2, c["gamma"])
    else:
        s.fit_pspec(**lims)
    s.fit_2Dpspec(p0=p0, bootstrap=False, use_azimmask=c["wedge"], **lims)
    require(abs(s.slope2D - c["gamma"]) < 1e-4, "index %r, expected %r" % (
        s.slope2D, c["gamma"]))
    require(abs(s.ellip2D - c["q"]) < 1e-4, "axis ratio %r, expected %r" % (
        s.ellip2D, c["q"]))
    # rows of the stored spectrum run downwards, as do its frequencies
    want = c["theta"]
    require(angle(s.theta2D, want) < 1e-4, "angle %r, expected %r" % (
        s.theta2D, want))
    require(0 <= s.theta2D <= np.pi, "angle outside [0, pi]")
    # the optimiser may give no covariance at an exact solution (NaN)
    require(not (s.slope2D_err > 1e-3 or s.ellip2D_err > 1e-3
                 or s.theta2D_err > 1e-3), "errors on an exact surface")
    return True


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(16, 30), kinds=["powerlaw"], nan=(0,)),
    wedge=st.sampled_from([None, None, 30., 70., 115.]),
    use=st.booleans(), lo=st.sampled_from([None, None, 0.0913]),
    hi=st.sampled_from([None, None, 0.3717]),
    weigh=st.sampled_from([False, False, True]),
    fix=st.sampled_from([False, False, True]), stat=st.booleans())),
    quick=60, thorough=2000,
    rule="the surface fit uses exactly the samples inside the frequency "
         "limits and, when asked, the azimuthal limits")
def selected_samples(c):
    a = gen.build(c["f"])
    if c["stat"]:
        s = PowerSpectrum(a, header=gen.header2(a.shape))
    else:
        s = VCA(np.array([a, 2 * a]), header=gen.header3((2,) + a.shape))
    s.compute_pspec()
    kw = {}
    if c["wedge"]:
        kw = dict(theta_0=c["wedge"] * u.deg, delta_theta=60 * u.deg)
    s.compute_radial_pspec(**kw)
    lims = {}
    if c["lo"]:
        lims["low_cut"] = c["lo"] / u.pix
    if c["hi"]:
        lims["high_cut"] = c["hi"] / u.pix
    p0 = (np.log10(np.median(s.ps2D)) - 2., 0.3, 1.3, -2.)
    opt = dict(radial_weighting=c["weigh"], fix_ellip_params=c["fix"])
    fy, fx = ref.freq_grids(a.shape)
    fy = fy[::-1]
    k = np.hypot(fy, fx)
    lo = c["lo"] or 2. / max(a.shape)
    hi = c["hi"] or s.freqs.value.max()
    mask = (k > lo) & (k <= hi)
    if min(np.abs(k - lo).min(), np.abs(k - hi).min()) < 1e-9:
        if c["lo"] or np.abs(k - hi).min() < 1e-9:
            return False
    if c["wedge"] and c["use"]:
        mask &= pspec(s.ps2D, **kw)[-1]
    alts = [mask]
    edge = (np.abs(k - lo) < 1e-9)
    if edge.any():      # rounding decides about the samples on the limit
        e = edge & (mask | edge)
        if c["wedge"] and c["use"]:
            e &= pspec(s.ps2D, **kw)[-1]
        alts = [mask & ~edge, mask | e]
    if mask.sum() < 12:
        return False
    s.fit_2Dpspec(p0=p0, bootstrap=False, use_azimmask=c["use"], **opt,
                  **lims)
    err = None
    for m in alts:
        p, p_ = (fit_elliptical_powerlaw(
            np.log10(s.ps2D[m]) * (1 + e), fx[m], fy[m], p0,
            bootstrap=False, **opt)[0] for e in (0, 1e-12))
        if np.abs(p - p_)[[0, 3]].max() > 1e-4:
            return False        # rounding decides where the optimiser stops
        try:
            close(s.slope2D, p[3], "index", rtol=0, atol=1e-3)
            close(s.ellip2D, inverse_interval_transform(p[1], 0, 1),
                  "axis ratio", rtol=0, atol=1e-3)
            if not c["fix"] and s.ellip2D < 0.9:
                require(angle(s.theta2D, p[2]) < 1e-2, "angle")
            err = None
            break
        except Exception as exc:
            err = exc
    if err is not None:
        raise err
    return True


@facet(st.fixed_dictionaries(dict(
    img=gen.fields(gen.shapes2(14, 24), kinds=["powerlaw"], nan=(0,)),
    seed=st.integers(0, 1000), niters=st.integers(4, 8),
    fix=st.booleans())), quick=16, thorough=200,
    rule="bootstrapped errors leave the solution alone and repeat with the "
         "seed")
def bootstrap(c):
    a = gen.build(c["img"])

    def run(boot):
        s = PowerSpectrum(a, header=gen.header2(a.shape))
        s.compute_pspec()
        s.compute_radial_pspec()
        s.fit_pspec()
        np.random.seed(c["seed"])
        s.fit_2Dpspec(bootstrap=boot, niters=c["niters"],
                      fix_ellip_params=c["fix"])
        return s
    s0, s1, s2 = run(False), run(True), run(True)
    for n in ("slope2D", "ellip2D", "theta2D"):
        close(getattr(s1, n), getattr(s0, n), n, rtol=1e-9)
        close(getattr(s2, n + "_err"), getattr(s1, n + "_err"), n + "_err",
              rtol=1e-9)
    # the free fit of a round spectrum warns that it does not converge
    if c["fix"] or s0.ellip2D <= 0.97:
        require(s1.slope2D_err > 0, "no bootstrapped error")
    if c["fix"]:
        require(s0.ellip2D == 1, "axis ratio not fixed")
    return True


@facet(st.fixed_dictionaries(dict(
    img=gen.fields(gen.shapes2(16, 28), kinds=["powerlaw"], nan=(0,)),
    seed=st.integers(0, 1000), weighted=st.booleans())), quick=10,
    thorough=200,
    rule="the bootstrapped error of the isotropic fit is the spread of the "
         "(weighted) least-squares slope under permuted residuals")
def bootstrap_size(c):
    a = gen.build(c["img"])
    s = PowerSpectrum(a, header=gen.header2(a.shape))
    s.compute_pspec()
    s.compute_radial_pspec()
    s.fit_pspec()
    yy, xx = np.indices(s.ps2D.shape).astype(float)
    yy -= s.ps2D.shape[0] // 2
    xx -= s.ps2D.shape[1] // 2
    f = np.hypot(yy / s.ps2D.shape[0], xx / s.ps2D.shape[1])
    m = (f > 0) & (f < 0.45)
    x, y, v = xx[m], yy[m], np.log10(s.ps2D[m])
    x, y = x / s.ps2D.shape[1], y / s.ps2D.shape[0]
    np.random.seed(c["seed"])
    p, e = fit_elliptical_powerlaw(v, x, y, (0., 0., 0., -2.),
                                   bootstrap=True, niters=80,
                                   radial_weighting=c["weighted"],
                                   fix_ellip_params=True)[:2]
    r = np.hypot(x, y)
    w = 1 / r if c["weighted"] else np.ones_like(r)
    A = np.column_stack([np.ones_like(r), np.log10(r)])
    proj = np.linalg.pinv(A * w[:, None]) * w
    sol = proj @ v
    close(p[3], sol[1], "slope", rtol=1e-3, atol=1e-3)
    res = v - A @ sol
    k = proj[1] - proj[1].mean()
    want = np.sqrt(np.sum(k ** 2) * np.sum((res - res.mean()) ** 2)
                   / (len(res) - 1))
    require(0.6 * want < e[3] < 1.6 * want,
            f"bootstrapped slope error {e[3]}, spread {want}")
    # nested intervals: none at 0, growing like the normal quantiles
    iv = []
    for alpha in (0., 0.3, 0.95):
        np.random.seed(c["seed"])
        iv.append(fit_elliptical_powerlaw(
            v, x, y, (0., 0., 0., -2.), bootstrap=True, niters=80,
            alpha=alpha, radial_weighting=c["weighted"],
            fix_ellip_params=True)[1][3])
    require(abs(iv[0]) < 1e-9 and iv[1] < e[3] < iv[2] and
            0.15 * want < iv[1] < 0.75 * want and
            1.2 * want < iv[2] < 3. * want,
            f"errors {iv} of intervals with 0, 30, 95% (spread {want})")
    return c["weighted"]


@facet(st.fixed_dictionaries(dict(
    n=st.integers(12, 24), seed=gen.SEED)), quick=10, thorough=100,
    rule="limits excluding every point and non-finite values are refused")
def refusals(c):
    a = image((c["n"], c["n"]), .5, .5, -2., 1., c["seed"])
    s = PowerSpectrum(a, header=gen.header2(a.shape))
    s.compute_pspec()
    s.compute_radial_pspec()
    s.fit_pspec()
    raises(ValueError, lambda: s.fit_2Dpspec(low_cut=0.9 / u.pix,
                                             high_cut=0.95 / u.pix,
                                             bootstrap=False), "empty range")
    raises(ValueError, lambda: s.fit_2Dpspec(fit_method="other"), "method")
    x = np.arange(1., 20.)
    v = -2 * np.log10(x)
    v[3] = np.nan
    raises(ValueError, lambda: fit_elliptical_powerlaw(
        v, x, x, (0, 0, 1, -2)), "NaN value")
    return True
