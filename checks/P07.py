"""VCS: one-dimensional power spectrum along the velocity axis."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics import VCS

RULE = "the cube varies along the velocity axis"


def reference(a):
    c = np.where(np.isnan(a), 0., a)
    p = ref.dft_abs(c) ** 2
    if np.isnan(a).any():
        n = (c != 0).any(axis=0).sum()
    else:
        n = a.shape[1] * a.shape[2]
    return p.sum(axis=(1, 2)) / float(n)


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(2, 20, 2, 8), nan=(0, 0, 0.1, 0.5)),
    dead=st.sampled_from([0., 0., 0.3]), pyfftw=st.booleans(), seed=gen.SEED)),
    quick=300, thorough=10000,
    rule="dense 3D DFT power summed over the spatial frequencies and divided "
         "by the number of spectra with data")
def spectrum(case):
    a = gen.build(case["f"])
    if case["dead"]:
        rng = np.random.RandomState(case["seed"] % 2 ** 32)
        a[:, rng.rand(*a.shape[1:]) < case["dead"]] = np.nan
    if not np.isfinite(a).any():
        return False
    v = VCS(a, header=gen.header3(a.shape))
    v.compute_pspec(use_pyfftw=case["pyfftw"])
    want = reference(a)
    close(v.ps1D, want, "VCS spectrum", rtol=1e-8)
    n = a.shape[0]
    k = np.minimum(np.arange(n), n - np.arange(n)) / float(n)
    require(v.freqs.unit == u.pix ** -1, "frequency unit")
    close(v.freqs.value, k, "spectral frequencies", rtol=1e-12)
    return np.nanstd(a, axis=0).max() > 0


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(4, 16, 2, 6), nan=(0,)), seed=gen.SEED)),
    quick=120, thorough=4000,
    rule="velocity shifts and flips, spectrum shuffles, scaling, empty pixels")
def symmetries(case):
    a = gen.build(case["f"])
    rng = np.random.RandomState(case["seed"] % 2 ** 32)

    def ps(c):
        v = VCS(c, header=gen.header3(c.shape))
        v.compute_pspec()
        return v.ps1D
    p0 = ps(a)
    sc = p0.max()
    close(ps(np.roll(a, rng.randint(a.shape[0]), axis=0)), p0,
          "after a velocity shift", rtol=1e-9, scale=sc)
    close(ps(a[::-1].copy()), p0, "after reversing the velocity axis",
          rtol=1e-9, scale=sc)
    close(ps(a * 4.), 16. * p0, "scaled cube", rtol=1e-9)
    flat = a.reshape(a.shape[0], -1)[:, rng.permutation(a[0].size)]
    close(ps(flat.reshape(a.shape)), p0, "after shuffling the spectra",
          rtol=1e-9, scale=sc)
    # the value does not depend on pixels that hold no data
    pad = np.concatenate([a, np.full_like(a, np.nan)], axis=1)
    close(ps(pad), p0 * pad[0].size / a[0].size, "with empty pixels",
          rtol=1e-9)
    # power is symmetric in positive and negative frequency
    close(p0[1:], p0[1:][::-1], "frequency symmetry", rtol=1e-9, scale=sc)
    return np.std(a, axis=0).max() > 0


@facet(st.fixed_dictionaries(dict(
    n=st.integers(40, 90), s1=st.sampled_from([-1.5, -2.5, -3.2]),
    s2=st.sampled_from([-5., -6., 0.]), seed=gen.SEED,
    brk=st.sampled_from([0.08, 0.12, 0.18]),
    unit=st.sampled_from(["pix", "m/s", "km/s"]),
    given=st.booleans(), log=st.booleans(),
    cuts=st.sampled_from([None, None, "low", "high", "both"]))),
    quick=60, thorough=1500,
    rule="a spectrum built as a broken power law gives back its two slopes")
def fitted_slopes(case):
    """Spectra with an exactly broken power law in |FFT|^2"""
    n = case["n"]
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    k = np.abs(np.fft.fftfreq(n))
    k[0] = 1.
    b, s1, s2 = case["brk"], case["s1"], case["s2"]
    amp = np.where(k < b, (k / b) ** s1, (k / b) ** s2)
    amp *= 10 ** rng.normal(0, 0.003, n)
    amp = 0.5 * (amp + amp[(-np.arange(n)) % n])
    ph = rng.rand(n) * 2 * np.pi
    F = np.sqrt(amp) * np.exp(1j * ph)
    F = 0.5 * (F + np.conj(F[(-np.arange(n)) % n]))
    F = np.sqrt(amp) * np.exp(1j * np.angle(F))
    F[0] = 1.
    spec = np.fft.ifft(F).real
    a = np.tile(spec[:, None, None], (1, 2, 3))
    hdr = gen.header3(a.shape, dv=100.)
    v = VCS(a, header=hdr)
    v.compute_pspec()
    lo, hi = 0.022, 0.42
    kw = {}

    def inunit(x):
        if case["unit"] == "pix":
            return x / u.pix
        return (x / (100. * u.m / u.s)).to(1 / u.Unit(case["unit"]))
    if case["cuts"] in ("low", "both"):
        kw["low_cut"] = inunit(lo)
    if case["cuts"] in ("high", "both"):
        kw["high_cut"] = inunit(hi)
    if case["given"]:
        g = b * 1.15
        kw["breaks"] = np.log10(g) if case["log"] else g
        kw["log_break"] = case["log"]
    elif not case["log"]:
        kw["log_break"] = False
    v.fit_pspec(**kw)
    lo = lo if "low_cut" in kw else 0.98 / n
    hi = hi if "high_cut" in kw else 0.51
    close([v.low_cut.to(1 / u.pix).value], [lo], "low cut", rtol=1e-9)
    if "high_cut" in kw:
        close([v.high_cut.to(1 / u.pix).value], [hi], "high cut", rtol=1e-9)
    kk = np.arange(1, n // 2) / float(n)
    use = (kk > lo) & (kk <= hi)
    x, y = np.log10(kk[use]), np.log10(v.ps1D[1:n // 2][use])
    # the fit uses exactly the points inside the limits
    close(np.sort(v.fit.x), np.sort(x), "fitted frequencies", rtol=1e-9)
    close(v.fit.y[np.argsort(v.fit.x)], y[np.argsort(x)], "fitted powers",
          rtol=1e-9)
    if v.slope.size == 2:
        nlo, nhi = (x < v.fit.brk).sum(), (x >= v.fit.brk).sum()
        if case["given"] and min(nlo, nhi) >= 5:
            close(v.slope[0], s1, "slope below the break", rtol=0.12)
            if s2 != 0:
                close(v.slope[1], s2, "slope above the break", rtol=0.12)
            close(10 ** v.brk, b, "break", rtol=0.2)
    else:
        beta, err = ref.ols(x, y)
        close(v.slope[0], beta[1], "slope without a break", rtol=1e-7)
    require((np.asarray(v.slope_err) >= 0).all(), "negative slope error")
    return v.slope.size == 2
