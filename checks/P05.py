"""Spatial power spectrum of an image."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from radio_beam import Beam
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics.psds import pspec
from turbustat.statistics import PowerSpectrum

RULE = "the image is not constant and at least two annuli were filled"
ASSUMPTIONS = ["radio_beam's Gaussian kernel as the beam response",
               "scipy's t-distribution quantiles"]

APOD = [None, None, "splitcosinebell", "hanning", "tukey", "cosinebell"]

opts = st.fixed_dictionaries(dict(
    apod=st.sampled_from(APOD),
    alpha=st.sampled_from([0.1, 0.3, 0.5, 0.8]),
    beta=st.sampled_from([0., 0.2, 0.4]),
    pyfftw=st.sampled_from([False, False, True]),
    beam=st.sampled_from([None, None, None, "header", "given"]),
    weights=st.sampled_from([None, None, "pos", "zeros", "nan", "hdu"]),
    wscale=st.sampled_from([1., 1., 1e-3, 3e4]),
    bwidth=st.sampled_from([1., 1., 1.9]), run=st.booleans(),
    wseed=gen.SEED))


def make(case, **kw):
    a = gen.build(case["f"])
    o = case["o"]
    pix = 0.01
    # a narrow beam: its response stays far from zero at every frequency
    hdr = gen.header2(a.shape, pix, beam=pix * 1.2 * o["bwidth"])
    w = None
    wuse = np.ones(a.shape)
    if o["weights"]:
        rng = np.random.RandomState(o["wseed"] % 2 ** 32)
        w = (0.2 + rng.rand(*a.shape)) * o["wscale"]
        if o["weights"] == "zeros":
            w[rng.rand(*a.shape) < 0.3] = 0.
        if o["weights"] == "nan":
            w[rng.rand(*a.shape) < 0.2] = np.nan
        wuse = np.where(np.isnan(w), 0., w)
        if o["weights"] == "hdu":
            w = fits.PrimaryHDU(w)
    if o["beam"] == "given":
        kw["beam"] = Beam(1.7 * pix * u.deg * o["bwidth"],
                          1.1 * pix * u.deg * o["bwidth"], 30 * u.deg)
    p = PowerSpectrum(a, header=hdr, weights=w, **kw)
    img = np.where(np.isnan(a), 0., a) * wuse
    if o["apod"]:
        img = img * ref.window(a.shape, o["apod"], o["alpha"], o["beta"])
    return p, a, img, hdr


def compute(p, o):
    kw = dict(apodize_kernel=o["apod"], alpha=o["alpha"],
              beta=o["beta"], use_pyfftw=o["pyfftw"],
              beam_correct=o["beam"] is not None)
    if o["run"] and min(p.data.shape) > 12:
        try:
            p.run(fit_2D=False, **kw)
            return
        except (ValueError, Warning):      # nothing to fit in the spectrum
            pass
    p.compute_pspec(**kw)


def beam_power(o, shape, pix=0.01):
    f = o["bwidth"] * pix * u.deg
    beam = Beam(1.2 * f) if o["beam"] == "header" else \
        Beam(1.7 * f, 1.1 * f, 30 * u.deg)
    k = beam.as_kernel(pix * u.deg, y_size=shape[0], x_size=shape[1]).array
    require(k.shape == tuple(shape), "kernel shape")
    return ref.power2d(k)[0]


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(5, 24), dtypes=("f8", "f8", "f8", "i4"),
                 nan=(0, 0, 0.1)),
    o=opts)), quick=250, thorough=8000,
    rule="squared dense-DFT amplitudes of the weighted, apodized image")
def spectrum_2d(case):
    o = case["o"]
    if case["f"]["dtype"] == "i4":
        case["f"]["nan"] = 0
        case["f"]["scale"] = 50.
    if o["beam"]:
        # kernels have odd sizes
        case["f"]["shape"] = [n | 1 for n in case["f"]["shape"]]
    p, a, img, hdr = make(case)
    compute(p, o)
    want, k = ref.power2d(img)
    want = want[::-1]
    if o["beam"]:
        bp = beam_power(o, a.shape)[::-1]
        close(p.ps2D * bp, want, "power before the beam correction",
              rtol=1e-8)
        want = want / bp
    close(p.ps2D, want, "2D power spectrum", rtol=1e-8)
    if not o["beam"]:
        # Parseval: nothing is lost or counted twice
        close(p.ps2D.sum(), img.size * (img ** 2).sum(), "total power",
              rtol=1e-8)
    return np.ptp(img) > 0


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(8, 28), nan=(0, 0, 0.1)), o=opts,
    log=st.booleans(), azim=st.sampled_from([None, None, 40., 100.]),
    maxbin=st.sampled_from([None, None, 0.3]),
    binsize=st.sampled_from([1., 1., 2.]))),
    quick=200, thorough=6000,
    rule="annular means and deviations recomputed from the definition")
def profile_1d(case):
    o = dict(case["o"], beam=None)
    case = dict(case, o=o)
    p, a, img, hdr = make(case)
    compute(p, o)
    kw = dict(logspacing=case["log"], max_bin=case["maxbin"],
              binsize=case["binsize"])
    if case["azim"]:
        kw.update(theta_0=20. * u.deg, delta_theta=case["azim"] * u.deg)
    p.compute_radial_pspec(**kw)
    power, k = ref.power2d(img)
    if k.min() == 0:
        k = k.copy()
        k[k == 0] = k[k > 0].min() / 2.
    edges = ref.radial_edges(a.shape, logspacing=case["log"],
                             binsize=case["binsize"], max_bin=case["maxbin"])
    if edges[0] >= edges[-1]:
        return False
    require(p.freqs.unit == u.pix ** -1, "frequency unit")
    close(p.freqs.value, 0.5 * (edges[1:] + edges[:-1]), "freqs")
    close(p.wavenumbers.value, p.freqs.value * min(a.shape), "wavenumbers")
    if case["azim"]:
        m = pspec(p.ps2D, return_stddev=True, **kw)[-1][::-1]
        power, k = power[m], k[m]
    r = ref.Radial(k, power, edges)
    n = r.compare(p.ps1D, p.ps1D_stddev, "1D power spectrum")
    return n >= 2 and np.ptp(img) > 0


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(6, 24), nan=(0,)), seed=gen.SEED,
    c=st.sampled_from([1e-4, 0.3, 7., 1e5, -2.]))),
    quick=150, thorough=5000,
    rule="periodic shifts, sign/scale, half turns and transposes")
def symmetries(case):
    a = gen.build(case["f"])
    hdr = gen.header2(a.shape)
    hdrT = gen.header2(a.T.shape)
    rng = np.random.RandomState(case["seed"] % 2 ** 32)

    def ps(img, h=hdr):
        p = PowerSpectrum(img, header=h)
        p.compute_pspec()
        p.compute_radial_pspec()
        return p
    p0 = ps(a)
    sc = p0.ps2D.max()
    s = [int(rng.randint(0, n)) for n in a.shape]
    p1 = ps(np.roll(a, s, axis=(0, 1)))
    close(p1.ps2D, p0.ps2D, "power after a periodic shift", rtol=1e-9,
          scale=sc)
    close(p1.ps1D, p0.ps1D, "profile after a periodic shift", rtol=1e-9,
          scale=sc)
    p2 = ps(a * case["c"])
    close(p2.ps2D, p0.ps2D * case["c"] ** 2, "power of a scaled image",
          rtol=1e-9)
    close(p2.ps1D_stddev, p0.ps1D_stddev * case["c"] ** 2,
          "deviations of a scaled image", rtol=1e-9,
          scale=sc * case["c"] ** 2)
    p3 = ps(a[::-1, ::-1].copy())
    close(p3.ps2D, p0.ps2D, "power after a half turn", rtol=1e-9, scale=sc)
    p4 = ps(a.T.copy(), hdrT)
    close(p4.ps1D, p0.ps1D, "profile after a transpose", rtol=1e-9,
          scale=sc)
    # an added constant only changes the zero frequency
    p5 = ps(a + 3. * np.abs(a).max())
    d = np.abs(p5.ps2D - p0.ps2D)
    i = np.unravel_index(np.argmax(p5.ps2D), d.shape)
    d[i] = 0.
    require(d.max() <= 1e-9 * p5.ps2D.max(),
            "a constant changed more than the zero frequency")
    return np.ptp(a) > 0
