"""Moment maps and their errors."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from astropy.wcs import WCS
from spectral_cube import SpectralCube
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.moments import Moments
from turbustat.moments._moment_errs import (
    moment0_error, moment1_error, moment2_error, linewidth_sigma_err,
    linewidth_fwhm_err)

cubes = gen.fields(gen.shapes3(3, 9, 2, 7), kinds=["positive", "lognormal",
                                                   "positive"],
                   nan=(0, 0, 0.1, 0.4), offsets=(0., 0.5),
                   scales=(1., 1., 40.))


def make_cube(a, c):
    h = gen.header3(a.shape, dv=c["dv"], v0=c["v0"], vunit=c["vunit"])
    cube = SpectralCube.read(fits.PrimaryHDU(a.copy(), h))
    if c["out"]:
        cube = cube.with_spectral_unit(u.Unit(c["out"]))
    return cube


AXIS = dict(dv=st.sampled_from([100., -250., 0.5, 1000.]),
            v0=st.sampled_from([0., -500., 12000.]),
            vunit=st.sampled_from(["m/s", "km/s"]),
            out=st.sampled_from([None, None, "km/s"]))


def expected(a, ok, v, dv, sig):
    """Moments over the included voxels and Gaussian error propagation"""
    v = v[:, None, None] - v.mean()
    x = np.where(ok, a, 0.)
    s = np.where(ok, sig, 0.)
    S = x.sum(0)
    none = ~ok.any(0)
    S[none] = np.nan
    m1 = (x * v).sum(0) / S
    m2 = (x * (v - m1) ** 2).sum(0) / S
    e0 = np.sqrt((s ** 2).sum(0)) * dv
    e0[none] = np.nan
    e1 = np.sqrt((((v - m1) * s / S) ** 2).sum(0))
    e2 = np.sqrt(((((v - m1) ** 2 - m2) * s / S) ** 2).sum(0))
    return S * dv, m1, m2, e0, e1, e2


@facet(st.fixed_dictionaries(dict(
    f=cubes, how=st.sampled_from(["slice", "cube"]), mask=st.booleans(),
    sig=st.sampled_from([0., 0.1, 2.]), sunit=st.sampled_from(["K", "mK"]),
    late=st.sampled_from([False, True, "other"]), seed=gen.SEED,
    noise=st.booleans(), auto=st.booleans(), **AXIS)),
    quick=240, thorough=6000,
    rule="moments of the included voxels and their propagated errors from "
         "the definition, for scalar noise and noise cubes")
def maps(c):
    a = gen.build(c["f"])
    cube = make_cube(a, c)
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    ok = np.isfinite(a)
    v = cube.spectral_axis.value
    vun = cube.spectral_axis.unit
    dv = abs(v[1] - v[0])
    how = c["how"]
    m = Moments(cube, moment_method=how,
                scale=None if c["late"] is True else 7. * u.K
                if c["late"] else (c["sig"] * u.K).to(u.Unit(c["sunit"])))
    if c["mask"]:
        keep = rng.rand(*a.shape) < 0.7
        m.apply_mask(keep)
        ok = ok & keep
    m.make_moments()
    if c["late"] == "other":
        m.make_moment_errors()      # with the noise given first
    m.make_moment_errors(**(dict(scale=(c["sig"] * u.K).to(
        u.Unit(c["sunit"]))) if c["late"] else {}))
    M0, M1, M2, E0, E1, E2 = expected(a, ok, v, dv, c["sig"])
    span = np.ptp(v) + dv
    un0 = u.K * vun
    if c["noise"]:
        r = Moments(m.cube, moment_method="ray")
        r.make_moments()
        for x, y, what in zip(r.all_moments()[:2], m.all_moments(),
                              ["moment 0", "moment 1"]):
            close(x, y, what + " by rays", rtol=1e-9, scale=np.abs(
                v).max() * (1 if what[-1] == "1" else np.nanmax(
                    np.abs(a))) + 1)
    close(m.moment0.to(un0), M0, "moment 0", rtol=1e-6)
    close(m.moment1.to(vun).value - v.mean(), M1, "moment 1",
          rtol=0, atol=1e-7 * (span + np.abs(v).max()))
    # one included channel: width zero to rounding
    tol2 = 1e-9 * (np.abs(v).max() + span) ** 2
    close(m.linewidth.to(vun).value ** 2, M2, "squared line width",
          rtol=1e-6, atol=tol2)
    close(m.moment0_err.to(un0), E0, "moment 0 error", rtol=1e-6)
    close(m.moment1_err.to(vun), E1, "moment 1 error", rtol=1e-6,
          atol=1e-9 * (span + np.abs(v).max()) * (c["sig"] + 1e-9) /
          np.nanmin(np.abs(M0 / dv)) if np.isfinite(M0).any() else 0)
    good = M2 > 1e-3 * dv ** 2
    lw = np.where(good, E2 / 2. / np.sqrt(np.where(good, M2, 1.)), np.nan)
    got = np.where(good, m.linewidth_err.to(vun).value, np.nan)
    close(got, lw, "line width error", rtol=1e-5)
    if c["noise"]:
        cube = m.cube
        if c["auto"]:
            how = "auto"
        sig = 0.05 + rng.rand(*a.shape)
        if c["f"]["nan"]:
            sig[rng.rand(*a.shape) < 0.1] = np.nan
        sc = make_cube(sig, c)
        E = expected(a, ok, v, dv, np.nan_to_num(sig))
        close(moment0_error(cube, sc, how=how).to(un0), E[3],
              "moment 0 error from a noise cube", rtol=1e-6)
        close(moment1_error(cube, sc, how=how).to(vun), E[4],
              "moment 1 error from a noise cube", rtol=1e-5,
              atol=1e-7 * span)
        e2 = moment2_error(cube, sc, how=how).to(vun ** 2).value
        close(np.where(good, e2, np.nan), np.where(good, E[5], np.nan),
              "moment 2 error from a noise cube", rtol=1e-5)
        s = linewidth_sigma_err(cube, sc, how=how).to(vun).value
        f = linewidth_fwhm_err(cube, sc, how=how).to(vun).value
        want = np.where(good, E[5] / 2. / np.sqrt(np.where(good, M2, 1.)),
                        np.nan)
        close(np.where(good, s, np.nan), want, "width error, noise cube",
              rtol=1e-5)
        close(np.where(good, f, np.nan), want * np.sqrt(8 * np.log(2)),
              "FWHM error, noise cube", rtol=1e-5)
        wrong = make_cube(sig[:-1], c)
        raises(IndexError, lambda: moment0_error(cube, wrong, how=how),
               "a noise cube of another shape")
    return ok.any() and (~ok).any() and c["sig"] > 0


@facet(st.fixed_dictionaries(dict(
    f=cubes, sig=st.sampled_from([None, 0.3]), explicit=st.booleans(),
    fromfile=st.booleans(), mask=st.booleans(), seed=gen.SEED,
    fresh=st.booleans(),
    unitless=st.booleans(), name=st.sampled_from(
        ["cube", "co.v2", "a_b-1.5", "x.fits"]), **AXIS)), quick=100, thorough=2000,
    rule="maps written to FITS files, and the dictionary form, hold the "
         "same values with the units of the maps, and are read back")
def roundtrip(c):
    a = gen.build(c["f"])
    cube = make_cube(a, c)
    scale = None if c["sig"] is None else c["sig"] * u.K
    d = tempfile.mkdtemp()
    try:
        name = os.path.join(d, c["name"] + ".fits")
        if c["fromfile"]:
            cube.write(name)
            src = name
        else:
            src = cube
        m = Moments(src, scale=scale)
        m.make_moments()
        m.make_moment_errors()
        maps_ = [m.moment0, m.moment1, m.linewidth]
        errs = [m.moment0_err, m.moment1_err, m.linewidth_err]
        keys = ["moment0", "centroid", "linewidth"]
        dic = m.to_dict()
        close(dic["cube"][0], np.where(np.isfinite(a), a, np.nan),
              "cube in the dictionary", rtol=0)
        for k, x, e in zip(keys, maps_, errs):
            close(dic[k][0], x.value, k, rtol=0)
            close(dic[k + "_error"][0], e.value, k + " error", rtol=0)
            for h in (dic[k][1], dic[k + "_error"][1]):
                un = u.Unit(h["BUNIT"])
                require(un.is_equivalent(x.unit) and
                        abs(un.to(x.unit) - 1) < 1e-9,
                        "%s labelled %s, is in %s" % (k, un, x.unit))
                sky = WCS(h)
                require(sky.naxis == 2, "%d header axes" % sky.naxis)
                px = np.array([[0., 0.], [2., 1.], [1., 5.]])
                close(sky.wcs_pix2world(px, 0),
                      cube.wcs.celestial.wcs_pix2world(px, 0),
                      "sky positions of " + k, rtol=1e-10)
        prefix = None if c["fromfile"] and not c["explicit"] else \
            os.path.join(d, "other" if c["explicit"] else "pre")
        m.to_fits(save_name=prefix)
        kw = dict(scale=scale)
        if c["explicit"]:
            for k, key in zip(keys, ["moment0", "centroid", "linewidth"]):
                kw[key] = prefix + "_" + k + ".fits"
        else:
            kw["moments_path"] = d
            if not c["fromfile"]:
                kw["moments_prefix"] = "pre"
        rng = np.random.RandomState(c["seed"] % 2 ** 32)
        if c["mask"]:
            keep = rng.rand(*a.shape) < 0.6
            mname = os.path.join(d, "mask.fits")
            fits.PrimaryHDU(keep.astype(np.int16)).writeto(mname)
            kw["mask_name"] = mname
        if c["fresh"]:
            # saved by an object that did nothing else
            n = Moments(src, scale=scale)
            n.make_moments()
            n.make_moment_errors()
            here = os.getcwd()
            os.chdir(d)
            try:
                if c["fromfile"]:
                    n.to_fits(save_name="default")
                else:
                    n.to_fits()
            finally:
                os.chdir(here)
            for k in keys:
                with fits.open(os.path.join(
                        d, "default_%s.fits" % k)) as x, fits.open((
                            name[:-5] if prefix is None else prefix)
                            + "_%s.fits" % k) as y:
                    for i in (0, 1):
                        close(x[i].data, y[i].data, k + " saved at once",
                              rtol=0)
                        require(x[i].header["BUNIT"] == y[i].header["BUNIT"],
                                k + " saved at once: unit")
        r = Moments.from_fits(src, **kw)
        got = [r.moment0, r.moment1, r.linewidth]
        gerr = [r.moment0_err, r.moment1_err, r.linewidth_err]
        for k, x, e, y, f in zip(keys, maps_, errs, got, gerr):
            require(f is not None and y is not None, k + " not found")
            close(y, x.value, "read " + k, rtol=0)
            close(f, e.value, "read %s error" % k, rtol=0)
        if c["mask"]:
            close(r.cube.filled_data[:].value,
                  np.where(keep & np.isfinite(a), a, np.nan), "masked cube",
                  rtol=0)
        if c["fresh"]:
            # a missing file leaves the other maps
            gone = keys[c["seed"] % 3]
            os.remove((name[:-5] if prefix is None else prefix)
                      + "_%s.fits" % gone)
            with contextlib.redirect_stdout(io.StringIO()):
                r = Moments.from_fits(src, **kw)
            for k, x, y, f in zip(keys, maps_, [
                    r.moment0, r.moment1, r.linewidth], [
                    r.moment0_err, r.moment1_err, r.linewidth_err]):
                if k == gone:
                    require(y is None and f is None, "a map without a file")
                else:
                    close(y, x.value, "read %s without %s" % (k, gone),
                          rtol=0)
        if c["unitless"]:
            keep0 = [x.value.copy() for x in maps_]
            m.make_moments(units=False)
            for k, x, y in zip(keys, keep0, [m.moment0, m.moment1,
                                             m.linewidth]):
                require(not hasattr(y, "unit"), k + " has a unit")
                close(y, x, k + " without unit", rtol=1e-12)
    finally:
        shutil.rmtree(d)
    if c["sig"] is None:
        for e in errs:
            e = np.asarray(e)
            close(e[np.isfinite(e)], np.zeros(np.isfinite(e).sum()),
                  "errors without noise", rtol=0)
    return np.isfinite(a).any()


@facet(st.fixed_dictionaries(dict(
    f=cubes, bad=st.sampled_from(["nounit", "unit", "negative", "how",
                                  "order"]),
    unit=st.sampled_from(["m", "Jy", "km/s", "K km/s", "K2", "s", "deg",
                          "kg"]),
    size=st.sampled_from([1e-300, 1e-9, 1e-5, 0.3, 40.]),
    sunit=st.sampled_from(["K", "mK", "MK"]), late=st.booleans(), **AXIS)),
    quick=60,
    thorough=400, rule="unusable noise levels and methods are refused")
def refused(c):
    cube = make_cube(gen.build(c["f"]), c)
    bad = c["bad"]
    good = Moments(cube, scale=c["size"] * u.Unit(c["sunit"]))

    def give(v):
        if c["late"]:
            good.scale = v
        else:
            Moments(cube, scale=v)

    if bad == "nounit":
        raises(TypeError, lambda: give(c["size"]), "unitless noise")
    elif bad == "unit":
        raises(u.UnitsError, lambda: give(c["size"] * u.Unit(c["unit"])),
               "noise in %s" % c["unit"])
    elif bad == "negative":
        raises(ValueError, lambda: give(-c["size"] * u.Unit(c["sunit"])),
               "negative noise")
    elif bad == "how":
        raises(TypeError, lambda: Moments(cube, moment_method="all"),
               "an unknown method")
    else:
        raises(ValueError, Moments(cube, scale=0.1 * u.K).make_moment_errors,
               "errors before moments")
    close(good.scale.to(u.K).value, c["size"] * u.Unit(c["sunit"]).to(u.K),
          "noise level after a refused change", rtol=1e-12)
    return bad
