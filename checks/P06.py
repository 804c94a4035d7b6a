"""VCA: spatial power spectrum summed over (rebinned) velocity channels."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from radio_beam import Beam
from spectral_cube import SpectralCube
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import VCA
from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube

RULE = "the cube is not constant and has at least two channels after binning"
ASSUMPTIONS = ["spectral-cube's reader for FITS cubes"]

APOD = [None, None, "splitcosinebell", "hanning", "tukey", "cosinebell"]


def power_sum(cube):
    """channels x sum over channels of the 2D power, zero centred"""
    return cube.shape[0] * sum(ref.power2d(c)[0] for c in cube)


def blocks(cube, n, fn=np.nanmean):
    out = []
    for i in range(0, cube.shape[0], n):
        b = cube[i:i + n]
        out.append(np.where(np.isnan(b).all(axis=0), np.nan, fn(b, axis=0)))
    return np.array(out)


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(2, 8, 5, 14), nan=(0, 0, 0.1)),
    apod=st.sampled_from(APOD), alpha=st.sampled_from([0.1, 0.3, 0.7]),
    beta=st.sampled_from([0., 0.3]), pyfftw=st.booleans(),
    beam=st.sampled_from([None, None, "header", "given"]))),
    quick=150, thorough=5000,
    rule="sum over channels of dense-DFT power")
def spectrum(case):
    if case["beam"]:
        s = case["f"]["shape"]
        case["f"]["shape"] = [s[0], s[1] | 1, s[2] | 1]
    a = gen.build(case["f"])
    pix = 0.01
    hdr = gen.header3(a.shape, pix=pix, beam=1.2 * pix)
    kw = {}
    beam = Beam(1.2 * pix * u.deg)
    if case["beam"] == "given":
        beam = kw["beam"] = Beam(1.6 * pix * u.deg, 1.1 * pix * u.deg,
                                 40 * u.deg)
    v = VCA(a, header=hdr, **kw)
    v.compute_pspec(apodize_kernel=case["apod"], alpha=case["alpha"],
                    beta=case["beta"], use_pyfftw=case["pyfftw"],
                    beam_correct=case["beam"] is not None)
    c = np.where(np.isnan(a), 0., a)
    if case["apod"]:
        c = c * ref.window(a.shape[1:], case["apod"], case["alpha"],
                           case["beta"])
    want = power_sum(c)
    if case["beam"]:
        k = beam.as_kernel(pix * u.deg, y_size=a.shape[1],
                           x_size=a.shape[2]).array
        want = want / ref.power2d(k)[0]
    close(v.ps2D, want[::-1], "VCA 2D spectrum", rtol=1e-8)
    v.compute_radial_pspec()
    fy, fx = ref.freq_grids(a.shape[1:])
    k = np.hypot(fy, fx)
    k[k == 0] = k[k > 0].min() / 2.
    r = ref.Radial(k, want, ref.radial_edges(a.shape[1:]))
    r.compare(v.ps1D, v.ps1D_stddev, "VCA 1D spectrum")
    return np.ptp(c) > 0


width = st.one_of(
    st.integers(1, 5).map(lambda n: ["int", n]),
    st.tuples(st.integers(1, 4), st.sampled_from([0., 0.3, 0.8])).map(
        lambda t: ["pix", t[0] + t[1]]),
    st.tuples(st.integers(1, 4), st.sampled_from([0., 0.2, 0.6])).map(
        lambda t: ["m/s", t[0] + t[1]]),
    st.tuples(st.integers(1, 4), st.sampled_from([0., 0.2, 0.6])).map(
        lambda t: ["km/s", t[0] + t[1]]))


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(3, 13, 5, 8), nan=(0, 0, 0.1)),
    width=width, sign=st.sampled_from([1, -1]),
    dv=st.sampled_from([100., 100., 83.3, 0.7]),
    v0=st.sampled_from([-500., 12.3, -20000.1]),
    fn=st.sampled_from(["default", "mean", "median", "sum", "max"]))),
    quick=120, thorough=4000,
    rule="block averages over the requested number of channels")
def channel_rebinning(case):
    a = gen.build(case["f"])
    dv = case["dv"] * case["sign"]
    hdr = gen.header3(a.shape, dv=dv, v0=case["v0"], beam=0.012)
    kind, w = case["width"]
    n = int(np.ceil(w))
    if kind == "int":
        cw = n
    elif kind == "pix":
        cw = w * u.pix
    else:
        cw = (w * case["dv"] * u.m / u.s).to(kind)
    fns = dict(mean=np.nanmean, median=np.nanmedian, sum=np.nansum,
               max=np.nanmax)
    kw = {}
    fn = np.nanmean
    if case["fn"] != "default":
        fn = kw["downsamp_function"] = fns[case["fn"]]
    cube = SpectralCube.read(fits.PrimaryHDU(a, hdr))
    out = spectral_regrid_cube(cube, cw, **kw)
    want = blocks(a, n, fn)
    close(out.filled_data[:].value, want, "rebinned cube", rtol=1e-9)
    got_dv = np.diff(out.spectral_axis.to(u.m / u.s).value)
    if got_dv.size:
        close(got_dv, np.full(got_dv.shape, dv * n), "rebinned channel width",
              rtol=1e-6)
    # and through the statistic
    v = VCA(a, header=hdr, channel_width=cw, downsample_kwargs=kw)
    v.compute_pspec()
    wz = np.where(np.isnan(want), 0., want)
    close(v.ps2D, power_sum(wz)[::-1], "VCA of the rebinned cube", rtol=1e-8)
    if v.header is not None and "CDELT3" in v.header and want.shape[0] > 1:
        close(abs(v.header["CDELT3"]), abs(hdr["CDELT3"]) * n,
              "channel width in the header", rtol=1e-6)
    return n > 1 and want.shape[0] > 1


@facet(st.fixed_dictionaries(dict(
    nv=st.integers(6, 40), ny=st.integers(2, 3), w=st.sampled_from(
        [1., 1.5, 2., 2.5, 3., 3.71]), unit=st.sampled_from(
            ["pix", "m/s", "km/s"]), sign=st.sampled_from([1, -1]),
    dv=st.sampled_from([100., 83.3, 0.7]),
    v0=st.sampled_from([-500., 12.3, -20000.1]),
    seed=gen.SEED)), quick=60, thorough=1500,
    rule="a regridded cube spans the same velocities in wider channels")
def channel_regridding(case):
    shape = (case["nv"], case["ny"], 3)
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    level = 1 + rng.rand()
    dv = case["dv"]
    hdr = gen.header3(shape, dv=dv * case["sign"], v0=case["v0"])
    w = case["w"]
    cw = w * u.pix if case["unit"] == "pix" else \
        (w * dv * u.m / u.s).to(case["unit"])
    a = np.full(shape, level)
    a += np.linspace(0, 1, case["nv"])[:, None, None]
    cube = SpectralCube.read(fits.PrimaryHDU(a, hdr))
    out = spectral_regrid_cube(cube, cw, method="regrid")
    n = case["nv"] if w == 1. else int(np.floor(case["nv"] / w))
    require(out.shape == (n,) + shape[1:], "regridded shape %s, expected %s"
            % (out.shape, (n,) + shape[1:]))
    old, new = (c.spectral_axis.to(u.m / u.s).value for c in (cube, out))
    if n > 1:
        close([new.min(), new.max()], [old.min(), old.max()],
              "regridded velocity range", rtol=1e-6)
        require(np.sign(new[1] - new[0]) == case["sign"],
                "spectral axis direction")
    # smoothing is normalised: a linear ramp is kept away from the ends
    arr = out.filled_data[:].value
    want = np.interp(new, old[::case["sign"]], a[::case["sign"], 0, 0])
    sigma = np.sqrt(max(w ** 2 - 1, 0)) / 2.3548
    half = 4 * int(np.ceil(sigma)) + 2
    span = np.abs(old[0] - new), np.abs(old[-1] - new)
    inner = (span[0] > dv * half) & (span[1] > dv * half)
    if inner.any():
        close(arr[inner, 0, 0], want[inner], "regridded ramp", rtol=1e-3)
    raises(ValueError, lambda: spectral_regrid_cube(
        cube, 0.5 * u.pix, method="regrid"), "up-sampling")
    raises(TypeError, lambda: spectral_regrid_cube(
        cube, 2, method="regrid"), "unitless width for regrid")
    raises(ValueError, lambda: spectral_regrid_cube(
        cube, 2 * u.pix, method="other"), "unknown method")
    raises(TypeError, lambda: spectral_regrid_cube(a, 2), "array as a cube")
    raises(u.UnitsError, lambda: spectral_regrid_cube(cube, 2 * u.s),
           "width in seconds")
    return n > 1 and w > 1


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(3, 6, 6, 12), nan=(0,)), seed=gen.SEED)),
    quick=80, thorough=2000,
    rule="channel order, spatial shifts, channel-wise sums")
def symmetries(case):
    a = gen.build(case["f"])
    hdr = gen.header3(a.shape)
    rng = np.random.RandomState(case["seed"] % 2 ** 32)

    def ps(c):
        v = VCA(c, header=gen.header3(c.shape))
        v.compute_pspec()
        v.compute_radial_pspec()
        return v
    v0 = ps(a)
    sc = v0.ps2D.max()
    v1 = ps(a[rng.permutation(a.shape[0])])
    close(v1.ps2D, v0.ps2D, "VCA after reordering channels", rtol=1e-9,
          scale=sc)
    sh = [int(rng.randint(n)) for n in a.shape[1:]]
    v2 = ps(np.roll(a, sh, axis=(1, 2)))
    close(v2.ps1D, v0.ps1D, "VCA after a spatial shift", rtol=1e-9, scale=sc)
    v3 = ps(a * -3.)
    close(v3.ps2D, 9. * v0.ps2D, "VCA of a scaled cube", rtol=1e-9)
    v4 = ps(np.concatenate([a, np.zeros_like(a)]))
    close(v4.ps2D, 2. * v0.ps2D, "VCA with empty channels appended",
          rtol=1e-9)
    return np.ptp(a) > 0
