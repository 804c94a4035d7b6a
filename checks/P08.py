"""Modified velocity centroids."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from radio_beam import Beam
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises
from vlib.stats import quiet

from turbustat.statistics import MVC

RULE = "centroid and integrated intensity both vary across the map"


def maps(case):
    shape = tuple(case["shape"])
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    c = rng.normal(size=shape) * case["vs"] + case["v0"]
    m = np.exp(rng.normal(size=shape) * 0.5)
    l = (0.3 + rng.rand(*shape)) * case["vs"]
    bad = np.zeros(shape, bool)
    for arr in (c, m, l):
        if case["nan"] == "all":
            if arr is c:
                bad = rng.rand(*shape) < 0.1
            arr[bad] = np.nan
        elif case["nan"] == "each":
            b = rng.rand(*shape) < 0.05
            arr[b] = np.nan
            bad |= b
    return c, m, l, bad


strat = st.fixed_dictionaries(dict(
    shape=gen.shapes2(5, 22), seed=gen.SEED,
    vs=st.sampled_from([0.5, 1., 300.]), v0=st.sampled_from([0., 2., -5.]),
    nan=st.sampled_from([None, None, "all", "each"]),
    pyfftw=st.booleans(), form=st.sampled_from(["array", "hdu", "mixed", "units"])))


def make(c, m, l, form="array"):
    hdr = gen.header2(c.shape)
    if form == "hdu":
        return MVC(fits.PrimaryHDU(c, hdr), fits.PrimaryHDU(m, hdr),
                   fits.PrimaryHDU(l, hdr))
    if form == "units":
        # line widths in another velocity unit than the centroids
        return MVC((c * u.km / u.s, hdr), m * u.K,
                   (l * u.km / u.s).to(u.m / u.s))
    if form == "mixed":
        return MVC((c, hdr), m, fits.PrimaryHDU(l, hdr))
    return MVC(c, m, l, header=hdr)


@facet(strat, quick=250, thorough=8000,
       rule="the modified-centroid combination of dense DFTs")
def spectrum(case):
    c, m, l, bad = maps(case)
    keep = [x.copy() for x in (c, m, l)]
    s = make(c, m, l, case["form"])
    s.compute_pspec(use_pyfftw=case["pyfftw"])
    for x, k in zip((c, m, l), keep):
        close(x, k, "input changed", rtol=0)
    c, m, l = (np.where(bad, 0., x) for x in (c, m, l))
    disp = (l ** 2 + c ** 2).mean()
    amp = ref.dft_abs(c * m) - disp * ref.dft_abs(m)
    want = np.roll(amp ** 2, (c.shape[0] // 2, c.shape[1] // 2),
                   axis=(0, 1))[::-1]
    close(s.ps2D, want, "MVC 2D spectrum", rtol=1e-8)
    s.compute_radial_pspec()
    fy, fx = ref.freq_grids(c.shape)
    k = np.hypot(fy, fx)
    k[k == 0] = k[k > 0].min() / 2.
    r = ref.Radial(k, want[::-1], ref.radial_edges(c.shape))
    n = r.compare(s.ps1D, s.ps1D_stddev, "MVC 1D spectrum")
    return n >= 2


@facet(st.fixed_dictionaries(dict(
    base=strat, apod=st.sampled_from(["splitcosinebell", "hanning", "tukey",
                                      "cosinebell"]),
    alpha=st.sampled_from([0.1, 0.3, 0.6]), beta=st.sampled_from([0., 0.3]))),
    quick=150, thorough=4000,
    rule="both transformed maps are windowed; one dispersion for all "
         "frequencies")
def apodized(case):
    c, m, l, bad = maps(case["base"])
    s = make(c, m, l)
    s.compute_pspec(apodize_kernel=case["apod"], alpha=case["alpha"],
                    beta=case["beta"])
    c, m, l = (np.where(bad, 0., x) for x in (c, m, l))
    w = ref.window(c.shape, case["apod"], case["alpha"], case["beta"])
    if np.abs(m * w).max() == 0:
        require(np.abs(s.ps2D).max() == 0, "power from an empty window")
        return False
    t1, t2 = ref.dft_abs(c * m * w), ref.dft_abs(m * w)
    sh = (c.shape[0] // 2, c.shape[1] // 2)
    t1, t2 = (np.roll(t, sh, axis=(0, 1))[::-1] for t in (t1, t2))
    root = np.sqrt(s.ps2D)
    # root = |t1 - disp * t2| for a single dispersion
    full = (l ** 2 + c ** 2)
    lo, hi = (full * w).mean(), full.mean()
    i = np.unravel_index(np.argmax(t2), t2.shape)
    fits_ = []
    for sign in (1, -1):
        d = (t1[i] + sign * root[i]) / t2[i]
        err = np.abs(np.abs(t1 - d * t2) - root).max()
        fits_.append((err, d))
    good = [d for err, d in fits_
            if err <= 1e-7 * max(root.max(), abs(d) * t2.max())]
    require(good, "no single dispersion explains the apodized spectrum")
    require(any(lo * (1 - 1e-7) <= d <= hi * (1 + 1e-7) for d in good),
            "dispersion %r outside [%r, %r]" % (good, lo, hi))
    return w.mean() < 1


@facet(st.fixed_dictionaries(dict(
    base=strat, beam=st.sampled_from(["header", "given"]),
    run=st.booleans(), apod=st.sampled_from([None, None, "hanning"]))),
    quick=60, thorough=1500,
    rule="divided by the power of the beam where asked for; no header is "
         "needed for the spectrum in pixels")
def beam(case):
    b = dict(case["base"], shape=[max(n | 1, 9) for n in
                                  case["base"]["shape"]])
    c, m, l, bad = maps(b)
    pix = 0.01
    hdr = gen.header2(c.shape, pix, beam=pix * 1.2)
    kw = {}
    bm = Beam(1.2 * pix * u.deg)
    if case["beam"] == "given":
        bm = kw["beam"] = Beam(1.7 * pix * u.deg, 1.1 * pix * u.deg,
                               30 * u.deg)
    s = MVC(c, m, l, header=hdr, **kw)
    s0 = MVC(c, m, l, header=gen.header2(c.shape, pix))
    s0.compute_pspec(apodize_kernel=case["apod"])
    done = False
    if case["run"] and min(c.shape) > 12:
        try:
            quiet(s.run, beam_correct=True, apodize_kernel=case["apod"],
                  alpha=0.3, fit_2D=False)
            done = True
        except (ValueError, Warning):
            pass
    if not done:
        s.compute_pspec(beam_correct=True, apodize_kernel=case["apod"])
    k = bm.as_kernel(pix * u.deg, y_size=c.shape[0],
                     x_size=c.shape[1]).array
    bp = ref.power2d(k)[0][::-1]
    close(s.ps2D * bp, s0.ps2D, "spectrum before the beam correction",
          rtol=1e-8)
    return True


@facet(st.fixed_dictionaries(dict(base=strat, seed=gen.SEED)),
       quick=100, thorough=3000,
       rule="intensity scaling, periodic shifts, unequal shapes")
def symmetries(case):
    b = dict(case["base"], nan=None)
    c, m, l, bad = maps(b)
    rng = np.random.RandomState(case["seed"] % 2 ** 32)

    def ps(*x):
        s = make(*x)
        s.compute_pspec()
        return s.ps2D
    p0 = ps(c, m, l)
    close(ps(c, 5. * m, l), 25. * p0, "scaled intensities", rtol=1e-8)
    sh = [int(rng.randint(n)) for n in c.shape]
    close(ps(*[np.roll(x, sh, axis=(0, 1)) for x in (c, m, l)]), p0,
          "periodic shift", rtol=1e-8)
    close(ps(*[x[::-1, ::-1].copy() for x in (c, m, l)]), p0, "half turn",
          rtol=1e-8)
    # the line widths only enter through their mean square
    lp = l.ravel()[rng.permutation(l.size)].reshape(l.shape)
    close(ps(c, m, lp), p0, "shuffled line widths", rtol=1e-7)
    raises(IndexError, lambda: make(c, m[:-1], l), "unequal shapes")
    raises(IndexError, lambda: make(c, m, l[:, :-1]), "unequal shapes")
    return True
