"""One-dimensional power-law fits of the 2D spectra."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import PowerSpectrum, VCA, MVC
from turbustat.statistics.fitting_utils import (check_fit_limits,
                                                residual_bootstrap)

RULE = "at least four points fall inside the fit limits"
PIX = 0.01
DIST = 250.


def stat(kind, a):
    """A statistic of the given kind on an image a (made into the inputs)"""
    if kind == "pspec":
        return PowerSpectrum(a, header=gen.header2(a.shape, PIX),
                             distance=DIST * u.pc)
    if kind == "vca":
        c = np.array([a, a[::-1] + 1, 2 * a])
        return VCA(c, header=gen.header3(c.shape, pix=PIX),
                   distance=DIST * u.pc)
    m = np.exp(0.3 * (a - a.mean()) / (a.std() + 1e-12))
    return MVC(a, m, np.abs(a[::-1]) + 1, header=gen.header2(a.shape, PIX),
               distance=DIST * u.pc)


def in_unit(freq, unit):
    """cycles/pixel -> the given inverse unit"""
    if unit == "pix":
        return freq / u.pix
    if unit in ("deg", "arcmin", "rad"):
        return (freq / (PIX * u.deg)).to(1 / u.Unit(unit))
    size = (PIX * u.deg).to(u.rad).value * DIST * u.pc
    return (freq / size).to(1 / u.Unit(unit))


cut = st.one_of(st.none(), st.none(), st.integers(0, 1000).map(
    lambda n: n / 1000.))


@facet(st.fixed_dictionaries(dict(
    kind=st.sampled_from(["pspec", "pspec", "pspec", "vca", "mvc"]),
    f=gen.fields(gen.shapes2(12, 32), nan=(0,)),
    lo=cut, hi=cut, unit=st.sampled_from(["pix", "deg", "arcmin", "rad",
                                          "pc", "AU"]),
    unbinned=st.sampled_from([False, False, True]),
    weighted=st.sampled_from([False, False, True]),
    log=st.booleans(), via_run=st.booleans())),
    quick=250, thorough=8000,
    rule="least squares with HC3 errors on exactly the points inside "
         "(low, high]")
def least_squares(case):
    a = gen.build(case["f"])
    s = stat(case["kind"], a)
    lo = None if case["lo"] is None else 0.02 + 0.18 * case["lo"]
    hi = None if case["hi"] is None else 0.25 + 0.25 * case["hi"]
    kw = {}
    if lo is not None:
        kw["low_cut"] = in_unit(lo, case["unit"])
    if hi is not None:
        kw["high_cut"] = in_unit(hi, case["unit"])
    weighted = case["weighted"] and not case["unbinned"]
    if case["via_run"]:
        s.run(fit_2D=False, fit_unbinned=case["unbinned"],
              radial_pspec_kwargs=dict(logspacing=case["log"]),
              fit_kwargs=dict(weighted_fit=weighted), **kw)
    else:
        s.compute_pspec()
        s.compute_radial_pspec(logspacing=case["log"])
        s.fit_pspec(fit_unbinned=case["unbinned"], weighted_fit=weighted,
                    **kw)
    if case["unbinned"]:
        fy, fx = ref.freq_grids(a.shape)
        x = np.hypot(fy[::-1], fx).ravel()
        y = s.ps2D.ravel()
        w = None
    else:
        x, y = s.freqs.value, s.ps1D
        w = s.ps1D_stddev
    L = 1. / (0.5 * max(a.shape)) if lo is None else lo
    H = x.max() if hi is None else hi
    close(s.low_cut.value, L, "recorded low cut", rtol=1e-9)
    close(s.high_cut.value, H, "recorded high cut", rtol=1e-9)
    # points that sit on a limit to rounding are not decidable here
    if (np.abs(x - L) < 1e-9).any() and lo is not None:
        return False
    if (np.abs(x - H) < 1e-9).any() and hi is not None:
        return False
    # default low cut 2/max(shape): samples exactly on it are outside
    use = (x > L + (1e-9 if lo is None else 0)) & (x <= H + 1e-12)
    lx, ly = np.log10(x[use]), np.log10(y[use])
    if lo is None and (np.abs(x - L) < 1e-9).any():
        # rounding decides these: try both below
        alts = [use, use | (np.abs(x - L) < 1e-9)]
    else:
        alts = [use]
    err = None
    for use in alts:
        lx, ly = np.log10(x[use]), np.log10(y[use])
        wt = None
        ok = np.isfinite(lx) & np.isfinite(ly)
        if weighted:
            sd = np.where(w[use] == 0, np.nan, w[use])
            wt = (0.434 * sd / y[use]) ** -2.
            ok &= np.isfinite(wt)
            wt = wt[ok]
            if not wt.size or wt.max() > 1e8 * wt.min():
                return False     # rounding decides such weights
        lx, ly = lx[ok], ly[ok]
        if lx.size < 4 or np.ptp(lx) == 0:
            return False
        beta, se = ref.ols(lx, ly, wt)
        if not np.isfinite(se).all() or se.max() > 1e6:
            return False
        try:
            close(s.slope, beta[1], "slope", rtol=1e-6)
            if ref.leverage(lx, wt) < 1 - 1e-4:
                close(s.slope_err, se[1], "slope error", rtol=1e-5)
            close(s.fit.params, beta, "fit parameters", rtol=1e-6)
            err = None
            break
        except Exception as exc:
            err = exc
    if err is not None:
        raise err
    require(s.brk is None, "a break appeared")
    return True


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(16, 40), seed=gen.SEED,
    p=st.sampled_from([0.5, 1.7, 2., 3., 11. / 3, 4.]),
    amp=st.sampled_from([1., 1e-3, 1e4]),
    lo=st.sampled_from([None, 0.06]), hi=st.sampled_from([None, 0.41]))),
    quick=120, thorough=3000,
    rule="an image with exactly power-law power returns its index")
def recovers_index(case):
    shape = tuple(case["shape"])
    a = powerlaw_image(shape, case["p"], case["seed"]) * case["amp"]
    s = PowerSpectrum(a, header=gen.header2(shape))
    kw = {}
    if case["lo"]:
        kw["low_cut"] = case["lo"] / u.pix
    if case["hi"]:
        kw["high_cut"] = case["hi"] / u.pix
    s.run(fit_2D=False, fit_unbinned=True, **kw)
    close(s.slope, -case["p"], "unbinned slope", rtol=1e-6)
    s.fit_pspec(**kw)
    # annular averages of a steep law differ slightly from the centre value
    require(abs(s.slope + case["p"]) < 0.7,
            "binned slope %r for an exact index of %r" % (s.slope,
                                                          -case["p"]))
    # rescaling the data changes no slope
    s2 = PowerSpectrum(a * 17., header=gen.header2(shape))
    s2.run(fit_2D=False, **kw)
    close(s2.slope, s.slope, "slope of rescaled data", rtol=1e-7)
    close(s2.slope_err, s.slope_err, "slope error of rescaled data",
          rtol=1e-5, atol=1e-9)
    return True


def powerlaw_image(shape, p, seed):
    """Real image whose |FFT|^2 is exactly k^-p (k > 0)."""
    rng = np.random.RandomState(seed % 2 ** 32)
    F = np.fft.fft2(rng.normal(size=shape))
    k = np.hypot(*np.meshgrid(np.fft.fftfreq(shape[0]),
                              np.fft.fftfreq(shape[1]), indexing="ij"))
    k[0, 0] = 1.
    F = F / np.abs(F) * k ** (-p / 2.)
    return np.fft.ifft2(F).real


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(14, 26), nan=(0,)), bseed=gen.SEED,
    unbinned=st.booleans())), quick=30, thorough=500,
    rule="bootstrapped errors are positive, repeatable and leave the slope")
def bootstrap_errors(case):
    a = gen.build(case["f"])
    s = stat("pspec", a)
    s.compute_pspec()
    s.compute_radial_pspec()
    s.fit_pspec()
    slope = s.slope
    state = np.random.get_state()[1].copy()
    bk = dict(nboot=60, seed=case["bseed"])
    s.fit_pspec(bootstrap=True, bootstrap_kwargs=bk)
    e1 = s.slope_err
    require((np.random.get_state()[1] == state).all(),
            "the seeded bootstrap moved the global random state")
    s.fit_pspec(bootstrap=True, bootstrap_kwargs=bk)
    close(s.slope, slope, "bootstrap changed the slope", rtol=1e-12)
    close(s.slope_err, e1, "bootstrap error not repeatable", rtol=1e-12)
    require(np.isfinite(e1) and e1 > 0, "bootstrap error %r" % e1)
    # of the order of the least-squares error
    y = s.fit.resid
    if y.std() > 1e-8:
        n = len(y)
        x = s.fit.model.exog[:, 1]
        plain = np.sqrt((y ** 2).sum() / (n - 2.) /
                        ((x - x.mean()) ** 2).sum())
        require(plain / 2. < e1 < plain * 1.5, "bootstrap error %r vs %r"
                % (e1, plain))
        close(e1, residual_bootstrap(s.fit, **bk)[1], "bootstrapped error",
              rtol=1e-9)
    return True


@facet(st.fixed_dictionaries(dict(
    kind=st.sampled_from(["none", "scalar", "pair", "triple"]),
    kind2=st.sampled_from(["none", "scalar", "pair", "triple"]),
    v=st.floats(0.01, 0.5))), quick=40, thorough=200,
    rule="one or two limits are expanded to two; other lengths refused")
def limit_pairs(case):
    def mk(k):
        return {"none": None, "scalar": case["v"] / u.pix,
                "pair": np.array([1., 2.]) * case["v"] / u.pix,
                "triple": np.array([1., 2., 3.]) / u.pix}[k]
    lo, hi = mk(case["kind"]), mk(case["kind2"])
    if "triple" in (case["kind"], case["kind2"]):
        raises(ValueError, lambda: check_fit_limits(lo, hi), "three limits")
        return True
    out = check_fit_limits(lo, hi)
    for got, want in zip(out, (lo, hi)):
        require(len(got) == 2, "two limits")
        if want is None:
            require(got[0] is None and got[1] is None, "None pair")
        elif want.isscalar:
            close([g.value for g in got], [want.value] * 2, "limit pair")
        else:
            close([g.value for g in got], want.value, "limit pair")
    return True
