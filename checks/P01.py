"""Accepted input forms."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from astropy.wcs import WCS
from spectral_cube import SpectralCube, Projection
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises

from turbustat.io import input_data

FORMS = ["primary", "image", "tuple", "list", "header", "file", "sc",
         "f4", "big", "fortran", "view", "readonly", "axes4", "axes5", "quantity",
         "i2", "u2", ">i4"]
INTS = FORMS[-3:]


def convert(a, h, form, ndim, tmp):
    """(data argument, header argument)"""
    if form == "primary":
        return fits.PrimaryHDU(a, h), None
    if form == "image":
        return fits.ImageHDU(a, h), None
    if form == "tuple":
        return (a, h), None
    if form == "list":
        return [a, h], None
    if form == "header":
        return a, h
    if form == "file":
        p = os.path.join(tmp, "a.fits")
        fits.PrimaryHDU(a, h).writeto(p, overwrite=True)
        return fits.open(p)[0], None
    if form == "sc":
        if ndim == 3:
            return SpectralCube.read(fits.PrimaryHDU(a, h)), None
        return Projection(a, unit=u.K, wcs=WCS(h), header=h), None
    if form == "big":
        return (a.astype(">f8"), h), None
    if form == "fortran":
        return (np.asfortranarray(a), h), None
    if form == "view":
        b = np.empty(tuple(2 * n for n in a.shape))
        b[:] = 1e9
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return (v, h), None
    if form == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return (b, h), None
    if form == "axes4":
        h = h.copy()
        n = ndim + 1
        h["NAXIS"] = n
        h["NAXIS%d" % n] = 1
        h["CTYPE%d" % n], h["CRVAL%d" % n] = "STOKES", 1.
        h["CDELT%d" % n], h["CRPIX%d" % n] = 1., 1.
        return (a[None], h), None
    if form == "axes5":
        # further axes of length one: spectral (for images) and Stokes
        h = h.copy()
        kinds = [("VRAD", "m/s"), ("STOKES", ""), ("LINEAR", "")]
        kinds = kinds[:2] if ndim == 2 else kinds[1:]
        h["NAXIS"] = ndim + 2
        for k, (kind, unit) in enumerate(kinds):
            n = ndim + 1 + k
            h["NAXIS%d" % n] = 1
            h["CTYPE%d" % n], h["CRVAL%d" % n] = kind, 1.
            h["CDELT%d" % n], h["CRPIX%d" % n] = 1., 1.
            if unit:
                h["CUNIT%d" % n] = unit
        return (a[None, None], h), None
    if form == "quantity":
        return (a * u.K, h), None
    raise ValueError(form)


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5),
    form=st.sampled_from(FORMS), seed=gen.SEED,
    nan=st.sampled_from([0., 0., 0.05]))), quick=500, thorough=8000,
    rule="every statistic gives the same results for the same data as HDU, "
         "file, tuple, list, array with header, SpectralCube or Projection, "
         "in any memory layout")
def forms(c):
    s = stats.STATS()[c["stat"]]
    opt = c["opt"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"], c["nan"])
    form = c["form"]
    if form == "header" and not s.header:
        return False
    if form.startswith("axes") and c["stat"] == "MVC":
        return False            # three maps, each as it is
    if form == "f4":
        a = a.astype("f4").astype(float)
    if form in INTS:
        # as many counts as the integers can hold
        a = np.round(np.where(np.isnan(a), 0., a) * (
            20. if c["stat"] == "MVC" else 3e4) / np.nanmax(np.abs(a)))
        if form == "u2":
            a = np.abs(a)
    base = s.results(s.run(s.new((a.copy(), h.copy()), opt=opt), opt))
    tmp = tempfile.mkdtemp(prefix="vp_p01_")
    try:
        if form in INTS + ["f4"]:
            data, hdr = (a.astype(form), h), None
        else:
            data, hdr = convert(a.copy(), h.copy(), form, s.ndim, tmp)
        got = s.results(s.run(s.new(data, header=hdr, opt=opt), opt))
    finally:
        shutil.rmtree(tmp)
    if form == "f4":
        # single precision throughout is not promised
        rough(got, base, "%s from %s" % (c["stat"], form))
        return True
    if form in ("quantity", "sc"):
        got, base = strip(got), strip(base)
    stats.same_rounded(got, base, "%s from %s" % (c["stat"], form),
                       rtol=1e-8)
    return True


def rough(got, want, what):
    for k in ("ps1D", "delta_var", "values", "scf_surface", "eigvals"):
        if k in want and isinstance(want[k], np.ndarray) \
                and want[k].dtype.kind == "f":
            g, w = np.ravel(got[k]), np.ravel(want[k])
            require(g.shape == w.shape, "%s: %s has shape %r" % (
                what, k, g.shape))
            close(g, w, "%s %s" % (what, k), rtol=2e-2,
                  atol=1e-3 * np.nanmax(np.abs(w)))


def strip(r):
    """Values without units"""
    if isinstance(r, dict):
        return {k: strip(v) for k, v in r.items()}
    if isinstance(r, list):
        if len(r) == 2 and isinstance(r[1], str):
            return np.asarray(r[0], dtype=float)
        return [strip(x) for x in r]
    return r


CASE = dict(seed=gen.SEED, unit=st.sampled_from(["K", "Jy", "", "mag"]),
            copy=st.booleans(), nan=st.sampled_from([0., 0.1]),
            ndim=st.sampled_from([2, 3]),
            form=st.sampled_from(FORMS[:7] + ["slice", "array", "axes4",
                                              "quantity"]))


def make(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    shape = tuple(rng.randint(3, 9, size=c["ndim"]))
    a = rng.normal(size=shape)
    a[rng.rand(*shape) < c["nan"]] = np.nan
    h = (gen.header2 if c["ndim"] == 2 else gen.header3)(shape)
    h["BUNIT"] = c["unit"] or "K"
    return a, h


@facet(st.fixed_dictionaries(CASE), quick=300, thorough=6000,
       rule="input_data returns the values and header of every form, sharing "
            "or copying them as requested")
def direct(c):
    a, h = make(c)
    form = c["form"]
    tmp = tempfile.mkdtemp(prefix="vp_p01_")
    try:
        if form == "slice":
            cube = SpectralCube.read(fits.PrimaryHDU(
                np.stack([a, a + 1.]), gen.header3((2,) + a.shape))) \
                if a.ndim == 2 else None
            if cube is None:
                return False
            data, hdr = cube[0], None
        elif form == "array":
            data, hdr = a.copy(), None
        elif form == "header":
            return False
        else:
            data, hdr = convert(a.copy(), h.copy(), form, a.ndim, tmp)
        if form == "array":
            raises(TypeError, lambda: input_data(data),
                   "an array without a header")
        else:
            out = input_data(data, need_copy=c["copy"])
            require(len(out) == 2, "input_data returns data and header")
            close(np.asarray(out[0]).reshape(a.shape), a, "values of " + form)
            require(isinstance(out[1], fits.Header), "header of %s" % form)
            if form != "slice":
                for k in ("NAXIS1", "CRPIX1", "CDELT2", "CTYPE1", "CRVAL2"):
                    close(np.nan if isinstance(h[k], str) else out[1][k],
                          np.nan if isinstance(h[k], str) else h[k],
                          "header %s of %s" % (k, form))
        arr = input_data(data, no_header=True, need_copy=c["copy"])
        require(isinstance(arr, np.ndarray), "no_header returns the array")
        close(np.asarray(arr).reshape(a.shape), a, "values of " + form)
        src = data.data if hasattr(data, "data") and isinstance(
            getattr(data, "data"), np.ndarray) else (
            data[0] if isinstance(data, (tuple, list)) else data)
        if c["copy"] and isinstance(src, np.ndarray):
            require(not np.shares_memory(np.asarray(arr), np.asarray(src)),
                    "need_copy of %s shares memory" % form)
    finally:
        shutil.rmtree(tmp)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, stat=st.sampled_from(stats.NAMES),
    bad=st.sampled_from(["noheader", "three", "text", "header", "none"]))),
    quick=150, thorough=1500,
    rule="unsupported inputs are refused with an error naming the problem")
def refused(c):
    s = stats.STATS()[c["stat"]]
    a, h = stats.data_for(s, c["seed"])
    bad = c["bad"]
    if s.name == "MVC":
        return False            # warns instead, and needs two other maps
    if bad == "noheader":
        if not s.header:
            return False
        raises(ValueError, lambda: s.new(a), "array without a header")
    elif bad == "three":
        raises(TypeError, lambda: s.new((a, h, h)), "three items")
    elif bad == "text":
        raises(TypeError, lambda: s.new("cube.fits"), "a file name")
    elif bad == "none":
        raises(TypeError, lambda: s.new(None), "None")
    else:
        if not s.header:
            return False
        raises(TypeError, lambda: s.new(a, header=dict(h)), "header as dict")
        raises(TypeError, lambda: s.new((a, dict(h))), "header as dict")
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, stat=st.sampled_from(["PowerSpectrum", "DeltaVariance",
                                         "StatMoments", "PDF"]),
    form=st.sampled_from(["array", "primary", "image", "tuple", "list",
                          "file", "sc", "quantity", "fortran", "i2",
                          "bool"]),
    dform=st.sampled_from(["tuple", "sc", "primary"]))),
    quick=150, thorough=2000,
    rule="weights are accepted in the same forms as the data")
def weights(c):
    s = stats.STATS()[c["stat"]]
    a, h = stats.data_for(s, c["seed"])
    w = np.random.RandomState(c["seed"] % 2 ** 32).uniform(0.5, 1.5, a.shape)
    if c["form"] == "i2":
        w = np.round(w * 2e4)
    elif c["form"] == "bool":
        if c["stat"] == "PDF":
            return False        # zeros have no log-normal fit
        w = (w > 0.6).astype(float)
    base = s.results(s.run(s.new((a.copy(), h.copy()), weights=w.copy())))
    tmp = tempfile.mkdtemp(prefix="vp_p01_")
    try:
        if c["form"] in ("i2", "bool", "array"):
            wt = w.astype("f8" if c["form"] == "array" else c["form"])
        else:
            wt = convert(w.copy(), h.copy(), c["form"], 2, tmp)[0]
        d = convert(a.copy(), h.copy(), c["dform"], 2, tmp)[0]
        got = s.results(s.run(s.new(d, weights=wt)))
    finally:
        shutil.rmtree(tmp)
    for k in ("slope2D", "ellip2D", "theta2D"):
        got.pop(k, None)
        base.pop(k, None)
    stats.same(got, base, "%s with weights as %s" % (s.name, c["form"]),
               rtol=1e-8)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, cu=st.sampled_from(["km/s", "m/s", "cm/s", None]),
    lu=st.sampled_from(["km/s", "m/s", "cm/s", None]),
    header=st.booleans())), quick=40, thorough=500,
    rule="MVC takes its maps in any form, and in different velocity units")
def mvc_units(c):
    from turbustat.statistics import MVC
    s = stats.STATS()["MVC"]
    a, h = stats.data_for(s, c["seed"])
    m0 = np.exp(0.3 * (a - a.mean()))
    lw = np.abs(a[::-1]) + 1.

    def in_unit(v, unit):
        if unit is None:
            return v.copy(), None
        return None, (v * u.km / u.s).to(unit)

    def pick(v, unit):
        arr, q = in_unit(v, unit)
        return arr if q is None else q
    cu, lu = c["cu"], c["lu"]
    if (cu is None) != (lu is None):
        cu = lu = cu or lu
    cen, wid = pick(a, cu), pick(lw, lu)
    scale = 1. if cu is None else (1 * u.km / u.s).to(cu).value
    kw = dict(header=h) if c["header"] else {}
    first = cen if c["header"] else (cen, h)
    got = stats.quiet(MVC, first, m0 * u.K, wid, **kw)
    want = stats.quiet(MVC, (a * scale, h), m0, lw * scale)
    rg = s.results(s.run(got))
    rw = s.results(s.run(want))
    close(rg["ps1D"], rw["ps1D"], "MVC power", rtol=1e-8)
    close(rg["slope"], rw["slope"], "MVC slope", rtol=1e-7)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, form=st.sampled_from(["primary", "tuple", "sc", "big",
                                         "file", "image", "quantity"]),
    fmt=st.sampled_from(["intensity", "spectra"]))), quick=40, thorough=400,
    rule="Cramer_Distance gives the same statistic for every input form")
def cramer(c):
    from turbustat.statistics import Cramer_Distance
    s = stats.STATS()["PCA"]
    a, h = stats.data_for(s, c["seed"])
    b = stats.smooth(a.shape, c["seed"] + 5)

    def dist(x, y):
        d = Cramer_Distance(x, y)
        d.format_data(data_format=c["fmt"], **(
            dict(num_spec=30) if c["fmt"] == "spectra" else {}))
        d.cramer_statistic(n_jobs=1)
        return d.distance
    want = dist((a.copy(), h), (b.copy(), h))
    tmp = tempfile.mkdtemp(prefix="vp_p01_")
    try:
        da = convert(a.copy(), h.copy(), c["form"], 3, tmp)[0]
        got = dist(da, (b.copy(), h))
    finally:
        shutil.rmtree(tmp)
    close(got, want, "Cramer distance from " + c["form"], rtol=1e-8)
    return True
