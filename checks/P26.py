"""Simulated position-position-velocity cubes."""
import warnings
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
import astropy.constants as co
from astropy.io import fits
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.simulator import make_ppv
from turbustat.io.sim_tools import (create_cube_header, create_image_header,
                                    create_fits_hdu)

KMS = u.km / u.s
FIELDS = dict(
    shape=st.tuples(*[st.integers(2, 6)] * 3).map(list),
    kind=st.sampled_from(["normal", "ints", "smooth", "const"]),
    sigma=st.sampled_from([0.3, 1., 8.]), mean=st.sampled_from([0., -3., 20.]),
    los=st.integers(0, 2), T=st.sampled_from([10., 100., 5000.]),
    length=st.sampled_from([0.1, 1., 30.]),
    m=st.sampled_from([1., 1.4, 2.33]),
    empty=st.sampled_from([0., 0., 0.3, 1.]),
    vunit=st.sampled_from(["km/s", "m/s", "cm/s"]),
    dunit=st.sampled_from(["cm-3", "m-3"]), seed=gen.SEED)


def fields(c):
    """Velocity (km/s) and density (cm^-3) fields"""
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    shape = tuple(c["shape"])
    if c["kind"] == "ints":
        v = rng.randint(-3, 4, size=shape).astype(float)
    elif c["kind"] == "smooth":
        v = np.cumsum(rng.normal(size=shape), axis=c["los"]) / 2.
    elif c["kind"] == "const":
        v = np.zeros(shape) + rng.normal(size=shape[1:])
    else:
        v = rng.normal(size=shape)
    n = np.exp(rng.normal(size=shape)) * 100
    if c["empty"]:
        n[rng.rand(*shape) < c["empty"]] = 0.
    return v * c["sigma"] + c["mean"], n


def call(c, v, n, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return make_ppv((v * KMS).to(c["vunit"]), (n / u.cm ** 3).to(
            c["dunit"]), los_axis=c["los"], m=c["m"] * co.m_p,
            T=c["T"] * u.K, los_length=c["length"] * u.pc, **kw)


def vtherm(c):
    return np.sqrt((co.k_B * c["T"] * u.K / (c["m"] * co.m_p)).to(
        KMS ** 2).value)


def oracle(c, v, n, cents, keep=None):
    """Brightness (K) from the Gaussian line of every cell; velocities in
    km/s"""
    v = np.moveaxis(v, c["los"], 0)
    n = np.moveaxis(n, c["los"], 0)
    dz = (c["length"] * u.pc).to(u.cm).value / v.shape[0]
    dv = np.empty_like(v)
    dv[0], dv[-1] = v[1] - v[0], v[-1] - v[-2]
    for i in range(1, len(v) - 1):
        dv[i] = (v[i + 1] - v[i - 1]) / 2.
    s = np.sqrt(dv ** 2 + vtherm(c) ** 2)
    w = n * dz / (np.sqrt(2 * np.pi) * s * 1e5)
    if keep is not None:
        w = w * np.moveaxis(keep, c["los"], 0)
    out = np.zeros((len(cents),) + v.shape[1:])
    for k, vc in enumerate(cents):
        out[k] = (w * np.exp(-(vc - v) ** 2 / (2 * s ** 2))).sum(0)
    return out / 1.823e13


def check_axis(ax, lo, hi, nwant, what):
    ax = ax.to(KMS).value
    n = len(ax)
    require(n in nwant, "%s: %d channels, expected %s" % (what, n,
                                                          sorted(nwant)))
    w = (hi - lo) / n
    close(ax, lo + w * (np.arange(n) + 0.5), what + ": channel centres",
          rtol=0, atol=1e-9 * (abs(lo) + abs(hi)))
    return ax


def nchan(x):
    """Acceptable ceilings of x given rounding"""
    return {int(np.ceil(x * (1 - 1e-9))), int(np.ceil(x * (1 + 1e-9)))}


@facet(st.fixed_dictionaries(dict(
    FIELDS, disp=st.sampled_from([None, None, 0.5, 4.]),
    index=st.sampled_from([0.5, 1., 0.67, None]),
    width=st.sampled_from([None, None, 0.4, 1.3]),
    wunit=st.sampled_from(["km/s", "m/s"]))), quick=120, thorough=3000,
    rule="without limits: channels span the field plus four line widths, "
         "the width follows Esquivel+2003 or the given one, and each "
         "spectrum is the sum of the lines of its cells")
def automatic(c):
    v, n = fields(c)
    kw = dict(vel_struct_index=c["index"], return_hdu=False, max_chan=10 ** 5)
    disp = c["disp"]
    if disp is not None:
        kw["vel_disp"] = (disp * KMS).to(c["wunit"])
    else:
        disp = v.std(axis=c["los"]).mean()
    vt = vtherm(c)
    lim = np.hypot(disp, vt)
    lo, hi = v.min() - 4 * lim, v.max() + 4 * lim
    if c["width"] is not None:
        w = c["width"] * lim
        kw["chan_width"] = (w * KMS).to(c["wunit"])
    else:
        idx = 0.5 if c["index"] is None else c["index"]
        w = np.sqrt(disp ** 2 * (2. / v.shape[c["los"]]) ** idx
                    + 2 * vt ** 2) / 2.
    if (hi - lo) / w > 400:
        return False
    cube, ax = call(c, v, n, **kw)
    require(cube.unit == u.K, "the cube is in %s" % cube.unit)
    ax = check_axis(ax, lo, hi, nchan((hi - lo) / w), "automatic")
    want = oracle(c, v, n, ax)
    close(cube, want, "cube", rtol=1e-8)
    # column density is conserved to the sampling of the lines
    return bool(n.any())


@facet(st.fixed_dictionaries(dict(
    FIELDS, lo=st.sampled_from([-1.5, -0.5, 0., 0.2, -6.]),
    hi=st.sampled_from([1.5, 0.6, 0.9, 6.]), nch=st.sampled_from(
        [1, 2, 3, 7, 7.5, 20.2, 40]), only=st.sampled_from(
            ["both", "both", "lo", "hi"]),
    lunit=st.sampled_from(["km/s", "m/s", "cm/s"]),
    wunit=st.sampled_from(["km/s", "m/s"]))), quick=120, thorough=3000,
    rule="given limits and width: every cell inside the limits contributes "
         "its whole line; cells outside them contribute it or nothing")
def limits(c):
    v, n = fields(c)
    vt = vtherm(c)
    disp = v.std(axis=c["los"]).mean()
    lim = np.hypot(disp, vt)
    lo, hi = v.min() - 4 * lim, v.max() + 4 * lim
    mid, half = v.mean(), max(v.std(), vt)
    kw = dict(return_hdu=False, max_chan=10 ** 5)
    if c["only"] != "hi":
        lo = mid + c["lo"] * half
        kw["v_min"] = (lo * KMS).to(c["lunit"])
    if c["only"] != "lo":
        hi = mid + c["hi"] * half
        kw["v_max"] = (hi * KMS).to(c["lunit"])
    if hi <= lo + 1e-6:
        return False
    w = (hi - lo) / c["nch"]
    kw["chan_width"] = (w * KMS).to(c["wunit"])
    cube, ax = call(c, v, n, **kw)
    ax = check_axis(ax, lo, hi, nchan((hi - lo) / w), "limits")
    tol = 1e-9 * (abs(lo) + abs(hi))
    sure = (v > lo + tol) & (v < hi - tol)
    got = cube.value
    full = oracle(c, v, n, ax)
    part = oracle(c, v, n, ax, sure)
    # both readings of gas beyond the limits are accepted, consistently
    s = max(full.max(), 1e-300)
    out_all = oracle(c, v, n, ax, (v >= lo - tol) & (v <= hi + tol))
    if not (np.abs(got - full) <= 1e-8 * s).all():
        lower, upper = part - 1e-8 * s, out_all + 1e-8 * s
        bad = (got < lower) | (got > upper)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            require(False, "cube at %s: %r, expected %r (gas within the "
                    "limits) or %r (all)" % (i, got[i], part[i], full[i]))
    return bool(n[sure].any())


@facet(st.fixed_dictionaries(dict(
    FIELDS, pix=st.sampled_from([1., 0.3, 60.]), rest=st.sampled_from(
        [1.42, 115.27]), hw=st.sampled_from([1., 0.37, 3.]))),
    quick=60, thorough=1200,
    rule="the HDU holds the same cube, with the velocity of each channel, "
         "pixel scale, rest frequency and unit in its header")
def hdu(c):
    v, n = fields(c)
    kw = dict(max_chan=10 ** 5, chan_width=c["hw"] * np.hypot(
        v.std(axis=c["los"]).mean(), vtherm(c)) * KMS)
    cube, ax = call(c, v, n, return_hdu=False, **kw)
    h = call(c, v, n, pixel_ang_scale=c["pix"] * u.arcmin,
             restfreq=c["rest"] * u.GHz, **kw)
    require(isinstance(h, fits.PrimaryHDU), "not an HDU")
    close(h.data, cube.value, "HDU data", rtol=1e-12)
    H = h.header
    k = np.arange(H["NAXIS3"]) + 1
    close((H["CRVAL3"] + (k - H["CRPIX3"]) * H["CDELT3"]) *
          u.Unit(H["CUNIT3"]).to(KMS), ax.to(KMS).value,
          "velocity axis of the header", rtol=1e-9)
    require("VRAD" in H["CTYPE3"], "spectral type %s" % H["CTYPE3"])
    for i in "12":
        close(abs(H["CDELT" + i]), c["pix"] / 60., "pixel scale", rtol=1e-9)
    close(H["RESTFRQ"], c["rest"] * 1e9, "rest frequency", rtol=1e-9)
    require(u.Unit(H["BUNIT"]) == u.K, "BUNIT %s" % H["BUNIT"])
    return True


@facet(st.fixed_dictionaries(dict(FIELDS, a=st.sampled_from([0., 0.5, 3.]),
                                  dv=st.sampled_from([-4., 2.5]))),
       quick=50, thorough=1000,
       rule="linear in density; shifting all velocities shifts the axis; "
            "swapping the sky axes swaps them in the cube; the inputs are "
            "not changed")
def relations(c):
    v, n = fields(c)
    lim = np.hypot(v.std(axis=c["los"]).mean(), vtherm(c))
    kw = dict(return_hdu=False, max_chan=10 ** 5, chan_width=0.7 * lim * KMS)
    v0, n0 = v.copy(), n.copy()
    cube, ax = call(c, v, n, **kw)
    close(call(c, v, c["a"] * n, **kw)[0], c["a"] * cube.value, "density",
          rtol=1e-9)
    sh, ax2 = call(c, v + c["dv"], n, **kw)
    if len(ax2) == len(ax):
        close(ax2.to(KMS).value, ax.to(KMS).value + c["dv"], "shifted axis",
              rtol=1e-8)
        close(sh, cube.value, "shifted cube", rtol=1e-6)
    axes = [i for i in range(3) if i != c["los"]]
    t, _ = call(c, np.swapaxes(v, *axes), np.swapaxes(n, *axes), **kw)
    close(t, np.swapaxes(cube.value, 1, 2), "swapped axes", rtol=1e-9)
    m, _ = call(dict(c, los=0), np.moveaxis(v, c["los"], 0),
                np.moveaxis(n, c["los"], 0), **kw)
    close(m, cube.value, "line of sight along another axis", rtol=1e-9)
    q, d = (v * KMS).to(c["vunit"]), (n / u.cm ** 3).to(c["dunit"])
    q0, d0 = q.copy(), d.copy()
    make_ppv(q, d, los_axis=c["los"])
    require((q == q0).all() and (d == d0).all() and (v == v0).all() and
            (n == n0).all(), "inputs changed")
    return bool(n.any())


@facet(st.fixed_dictionaries(dict(FIELDS, threads=st.sampled_from([2, 3]))),
       quick=6, thorough=30, rule="the same cube with any number of threads")
def threads(c):
    v, n = fields(c)
    a, x = call(c, v, n, return_hdu=False)
    b, y = call(c, v, n, return_hdu=False, threads=c["threads"])
    close(b, a.value, "cube with threads", rtol=0)
    close(y, x.value, "axis with threads", rtol=0)
    return True


@facet(st.fixed_dictionaries(dict(FIELDS, pos=gen.SEED)), quick=30,
       thorough=400, rule="requests without an answer are refused")
def refused(c):
    v, n = fields(c)
    bad = n.copy()
    bad.flat[c["pos"] % n.size] = -1e-3
    raises(ValueError, lambda: call(c, v, bad), "a negative density")
    lo, hi = v.min() * KMS - 1 * KMS, v.max() * KMS + 1 * KMS
    raises(ValueError, lambda: call(c, v, n, v_min=hi, v_max=lo,
                                    chan_width=1 * KMS), "v_min > v_max")
    for k in ("v_min", "v_max"):
        raises(u.UnitsError, lambda: call(c, v, n, **{k: 1. * u.K}),
               k + " in K")
    raises(ValueError, lambda: call(
        c, v, n, v_min=lo, v_max=hi, max_chan=10,
        chan_width=(hi - lo) / 10.5), "more channels than max_chan")
    cube, ax = call(c, v, n, v_min=lo, v_max=hi, max_chan=10,
                    chan_width=(hi - lo) / 9.5, return_hdu=False)
    require(len(ax) == 10, "max_chan channels refused")
    return True


@facet(st.fixed_dictionaries(dict(
    shape=st.tuples(*[st.integers(1, 9)] * 3).map(list),
    pix=st.floats(0.01, 10.), beam=st.floats(0., 5.),
    dv=st.floats(0.01, 50.), v0=st.floats(-200., 200.),
    vunit=st.sampled_from(["km/s", "m/s", "Hz", "MHz"]),
    rest=st.floats(0.1, 200.), bunit=st.sampled_from(["K", "Jy", "Jy / beam"]),
    seed=gen.SEED)), quick=150, thorough=3000,
    rule="headers for simulated data say what was asked")
def headers(c):
    from astropy.wcs import WCS
    sh = tuple(c["shape"])
    vu = u.Unit(c["vunit"])
    dv = c["dv"] * vu
    v0 = c["v0"] * (KMS if vu.is_equivalent(KMS) else u.Hz)
    bu = u.Unit(c["bunit"])
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    data = rng.normal(size=sh)
    pix, beam = c["pix"] * u.arcmin, c["beam"] * u.arcsec
    rest = c["rest"] * u.GHz

    def common(h, ny, nx, what):
        close(h["CDELT1"], -c["pix"] / 60, what + " CDELT1", rtol=1e-9)
        close(h["CDELT2"], c["pix"] / 60, what + " CDELT2", rtol=1e-9)
        close(h["BMAJ"], c["beam"] / 3600, what + " beam", rtol=1e-9)
        close(h["BMIN"], c["beam"] / 3600, what + " beam", rtol=1e-9)
        close(h["CRPIX1"], nx / 2., what + " CRPIX1", rtol=0, atol=0.51)
        close(h["CRPIX2"], ny / 2., what + " CRPIX2", rtol=0, atol=0.51)
        close(h["RESTFRQ"], c["rest"] * 1e9, what + " RESTFRQ", rtol=1e-9)
        require(u.Unit(h["BUNIT"]) == bu, what + " BUNIT " + h["BUNIT"])
        for i in "12":
            require(h["CUNIT" + i] == "deg", what + " CUNIT")

    h = create_image_header(pix, beam, sh[1:], rest, bu)
    common(h, sh[1], sh[2], "image")
    hdu = create_fits_hdu(data[0], pix, beam, sh[1:], rest, bu)
    close(hdu.data, data[0], "image data", rtol=0)
    common(hdu.header, sh[1], sh[2], "image HDU")
    args = (pix, dv, beam, sh, rest, bu)
    h3 = create_cube_header(*args, v0=v0)
    common(h3, sh[1], sh[2], "cube")
    f = u.Unit(h3["CUNIT3"])
    close((h3["CDELT3"] * f).to(vu), c["dv"], "channel width", rtol=1e-9)
    close(((h3["CRVAL3"] + (1 - h3["CRPIX3"]) * h3["CDELT3"]) * f).to(
        v0.unit), c["v0"], "first channel", rtol=1e-9, atol=1e-9)
    require(h3["CTYPE3"] == ("VRAD" if vu.is_equivalent(KMS) else "FREQ"),
            "spectral type %s" % h3["CTYPE3"])
    hdu3 = create_fits_hdu(data, *args, v0)
    close(hdu3.data, data, "cube data", rtol=0)
    require(WCS(hdu3.header).naxis == 3, "cube WCS")
    common(hdu3.header, sh[1], sh[2], "cube HDU")
    raises(ValueError, lambda: create_fits_hdu(data[0, 0], *args), "1D data")
    return True
