"""Fourier amplitudes and radial profiles."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics.rfft_to_fft import rfft_to_fft
from turbustat.statistics.psds import (pspec, make_radial_arrays,
                                       make_radial_freq_arrays)

RULE = ("the transform has more than one pixel per axis / at least two "
        "radial bins hold two or more finite samples")
ASSUMPTIONS = ["numpy broadcasting and scipy's t-distribution quantiles"]

ndshape = st.one_of(
    st.lists(st.integers(1, 14), min_size=2, max_size=2),
    st.lists(st.integers(1, 9), min_size=3, max_size=3))


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(ndshape, nan=(0,), dtypes=("f8", "f8", "f4", ">f8", "i4")),
    pyfftw=st.booleans(), keep=st.booleans(), threads=st.sampled_from([1, 2]))),
    quick=400, thorough=20000,
    rule="|DFT| from dense DFT matrices, 2D and 3D, odd and even axes")
def full_transform(case):
    a = gen.build(case["f"])
    keep = a.copy()
    if case["pyfftw"] and not a.dtype.isnative:
        return False      # pyFFTW itself refuses byte-swapped arrays
    kw = dict(threads=case["threads"]) if case["pyfftw"] else {}
    got = rfft_to_fft(a, use_pyfftw=case["pyfftw"], keep_rfft=case["keep"],
                      **kw)
    want = ref.dft_abs(a.astype(float))
    if case["keep"]:
        want = want[..., :a.shape[-1] // 2 + 1]
    close(got, want, "FFT amplitude", rtol=2e-5 if a.dtype.itemsize == 4 and
          a.dtype.kind == "f" else 1e-9)
    close(a, keep, "input array changed", rtol=0)
    return min(a.shape) > 1


@facet(st.integers(1, 5).flatmap(lambda n: st.lists(
    st.integers(1, 4), min_size=n, max_size=n)), quick=30, thorough=200,
    rule="dimensionality other than 2 or 3 is refused")
def dimensionality(case):
    a = np.ones(case)
    if len(case) in (2, 3):
        require(rfft_to_fft(a).shape == a.shape, "shape")
    else:
        raises(TypeError, lambda: rfft_to_fft(a), "%dD array" % len(case))
    return True


radial_opts = st.fixed_dictionaries(dict(
    logspacing=st.booleans(),
    binsize=st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.7]),
    nbins=st.sampled_from([None, None, 3, 7, 20]),
    freqs=st.sampled_from([True, True, False]),
    stddev=st.booleans(),
    bounds=st.sampled_from([None, None, "min", "max", "both"]),
    mean=st.sampled_from(["mean", "mean", "median"])))


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(3, 28), kinds=["lognormal", "positive", "noise"],
                 nan=(0, 0, 0.1, 0.4)),
    o=radial_opts)), quick=500, thorough=20000,
    rule="annulus membership recomputed sample by sample")
def radial_profile(case):
    a = gen.build(case["f"])
    o = case["o"]
    kw = dict(logspacing=o["logspacing"], binsize=o["binsize"],
              nbins=o["nbins"], return_freqs=o["freqs"],
              return_stddev=o["stddev"])
    lo, hi = (0.11, 0.41) if o["freqs"] else (1.3, 6.1)
    ekw = {}
    if o["bounds"] in ("min", "both"):
        ekw["min_bin"] = lo
    if o["bounds"] in ("max", "both"):
        ekw["max_bin"] = hi
    kw.update(ekw)
    stat = np.mean
    if o["mean"] == "median":
        kw["mean_func"] = np.nanmedian
        stat = np.median
    keep = a.copy()
    out = pspec(a, **kw)
    close(a, keep, "input changed", rtol=0)
    edges = ref.radial_edges(a.shape, logspacing=o["logspacing"],
                             binsize=o["binsize"], nbins=o["nbins"],
                             freqs=o["freqs"], **ekw)
    if edges[0] >= edges[-1]:
        return False
    close(out[0], 0.5 * (edges[1:] + edges[:-1]), "bin centres", rtol=1e-9)
    if o["freqs"]:
        # rows of the power array run from the highest to the lowest
        # vertical frequency
        fy, fx = ref.freq_grids(a.shape)
        d = np.hypot(fy[::-1], fx)
        d[d == 0] = d[d > 0].min() / 2.
    else:
        y = np.arange(a.shape[0]) - a.shape[0] // 2
        x = np.arange(a.shape[1]) - a.shape[1] // 2
        d = np.hypot(*np.meshgrid(y, x, indexing="ij"))
    r = ref.Radial(d, a, edges)
    n = r.compare(out[1], out[2] if o["stddev"] else None, "radial profile",
                  stat=stat, mask_singletons=o["stddev"])
    return n >= 2


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(6, 31), seed=gen.SEED,
    theta=st.floats(-180, 180).map(lambda v: round(v, 2)),
    delta=st.sampled_from([15., 30., 45., 60., 90., 120., 150., 172.]),
    boot=st.sampled_from([False, False, True]),
    unit=st.sampled_from(["deg", "rad", "arcmin"]),
    std=st.booleans())), quick=300, thorough=10000,
    rule="the wedge about theta_0 and its mirror image, to one pixel")
def azimuthal_limits(case):
    shape = tuple(case["shape"])
    a = np.exp(np.random.RandomState(case["seed"] % 2 ** 32).normal(
        size=shape))
    th = (case["theta"] * u.deg).to(case["unit"])
    dt = (case["delta"] * u.deg).to(case["unit"])
    out = pspec(a, theta_0=th, delta_theta=dt, return_stddev=case["std"],
                logspacing=False)
    mask = out[-1]
    require(mask.shape == shape, "mask shape")
    y = np.arange(shape[0]) - shape[0] // 2
    x = np.arange(shape[1]) - shape[1] // 2
    yy, xx = np.meshgrid(y, x, indexing="ij")
    r = np.hypot(yy, xx)
    ang = np.rad2deg(np.arctan2(yy, xx))
    off = np.abs((ang - case["theta"] + 90.) % 180. - 90.)   # mod 180
    tol = np.rad2deg(np.arcsin(np.minimum(1., 1.5 / np.maximum(r, 1e-9))))
    far = r > 2.9
    inside = off < case["delta"] / 2. - tol
    outside = off > case["delta"] / 2. + tol
    require(mask[far & inside].all(),
            "a pixel well inside the azimuthal limits was left out")
    require(not mask[far & outside].any(),
            "a pixel well outside the azimuthal limits was used")
    if shape[0] % 2 and shape[1] % 2:
        e = 1e-6
        require(mask[far & (off < case["delta"] / 2. - e)].all(),
                "a pixel inside the azimuthal limits was left out")
        require(not mask[far & (off > case["delta"] / 2. + e)].any(),
                "a pixel outside the azimuthal limits was used")
    fy, fx = ref.freq_grids(shape)
    d = np.hypot(fy[::-1], fx)
    d[d == 0] = d[d > 0].min() / 2.
    edges = ref.radial_edges(shape)
    rr = ref.Radial(d[mask], a[mask], edges)
    n = rr.compare(out[1], out[2] if case["std"] else None,
                   "azimuthally limited profile",
                   mask_singletons=case["std"])
    raises(ValueError, lambda: pspec(a, theta_0=th), "theta_0 alone")
    if case["boot"] and case["std"]:
        # bootstrapped deviations: the same size, slightly smaller
        b = pspec(a, theta_0=th, delta_theta=dt, return_stddev=True,
                  logspacing=False, boot_iter=60)
        close(b[1], out[1], "bootstrapped profile", rtol=1e-12)
        cts = np.histogram(d[mask], edges)[0]
        many = cts >= 12
        q = b[2][many] / out[2][many]
        require(((q > 0.6) & (q < 1.05)).all(),
                "bootstrapped deviations are %r of the plain ones" % q)
    return n >= 2 and bool((far & inside).any() and (far & outside).any())


@facet(gen.shapes2(2, 40), quick=200, thorough=4000,
       rule="centre and extent of the coordinate grids")
def coordinate_grids(case):
    shape = tuple(case)
    yy, xx = make_radial_arrays(shape)
    close(yy[:, 0], np.arange(shape[0]) - shape[0] // 2, "y offsets", rtol=0)
    close(xx[0], np.arange(shape[1]) - shape[1] // 2, "x offsets", rtol=0)
    require((yy == yy[:, :1]).all() and (xx == xx[:1]).all(), "grid layout")
    fy, fx = make_radial_freq_arrays(shape)
    close(np.sort(fy[:, 0]), ref.shifted_freqs(shape[0]), "y freqs")
    close(fx[0], ref.shifted_freqs(shape[1]), "x freqs")
    require((fy == fy[:, :1]).all() and (fx == fx[:1]).all(), "grid layout")
    return True
