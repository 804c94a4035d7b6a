"""Simulated power-law fields."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.simulator import make_extended, make_3dfield
from turbustat.simulator.threeD_pspec import threeD_pspec

SLOPES = st.one_of(st.sampled_from([0., 1., 2., 3., 4.]),
                   st.floats(0., 5.).map(lambda x: round(x, 3)))


def conj_modes(n, ndim):
    """Modes that are their own conjugates"""
    f = np.zeros(n, dtype=bool)
    f[0] = True
    if n % 2 == 0:
        f[n // 2] = True
    out = True
    for g in np.meshgrid(*[f] * ndim, indexing="ij"):
        out = out & g
    return out


def check_law(amp, rr, ok, p, what):
    """amp is proportional to rr ** (-p / 2) where ok"""
    want = np.where(ok, rr, 1.) ** (-p / 2.)
    ratio = np.where(ok, amp / want, np.nan)
    mid = np.nanmedian(ratio)
    require(mid > 0, what + ": no power")
    bad = np.abs(ratio / mid - 1) > 1e-6 + 1e-11 * amp.max() / \
        np.maximum(mid * want, 1e-300)
    bad &= ok
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        require(False, "%s: mode %s has %.6g of its amplitude" % (
            what, i, ratio[i] / mid))
    return mid


@facet(st.fixed_dictionaries(dict(
    n=st.integers(4, 40), p=SLOPES, ellip=st.sampled_from(
        [1., 1., 0.2, 0.5, 0.77]), theta=st.floats(-4., 4.).map(
            lambda x: round(x, 3)), q=st.booleans(), seed=gen.SEED)),
    quick=300, thorough=8000,
    rule="square, real, zero mean, Fourier amplitudes exactly the requested "
         "elliptical power law; the returned transforms are its transforms")
def image(c):
    n, p, e = c["n"], c["p"], c["ellip"]
    th = c["theta"]
    kw = dict(powerlaw=p, ellip=e, randomseed=c["seed"],
              theta=np.rad2deg(th) * u.deg if c["q"] else th)
    img = np.asarray(make_extended(n, **kw))
    require(img.shape == (n, n), "shape %s for size %d" % (img.shape, n))
    require(not np.iscomplexobj(img), "complex image")
    ft = np.fft.fft2(img)
    k = np.fft.fftfreq(n)
    ky, kx = np.meshgrid(k, k, indexing="ij")
    rr = np.hypot(e * (kx * np.cos(th) - ky * np.sin(th)),
                  kx * np.sin(th) + ky * np.cos(th)) if e < 1 else \
        np.hypot(ky, kx)
    ok = ~conj_modes(n, 2)
    if n % 2 == 0 and e < 1:
        # these stand for positive and negative frequencies at once
        ok &= (np.abs(kx) < 0.5) & (np.abs(ky) < 0.5)
    amp = np.abs(ft)
    check_law(amp, rr, ok, p, "image")
    require(p == 0 or amp[0, 0] <= 1e-9 * amp.max() + 1e-12, "the mean is not zero")
    # full and half transforms
    full = np.asarray(make_extended(n, return_fft=True, **kw))
    half = np.asarray(make_extended(n, return_fft=True, full_fft=False, **kw))
    close(full, np.fft.fftshift(ft), "full transform", rtol=1e-9)
    close(half, np.fft.rfft2(img), "half transform", rtol=1e-9)
    return n > 6


@facet(st.fixed_dictionaries(dict(
    n=st.integers(4, 17), p=SLOPES, amp=st.sampled_from([1., 0.01, 50.]),
    seed=gen.SEED)), quick=160, thorough=3000,
    rule="cubic, real, zero mean, rms equal to amp, Fourier amplitudes "
         "exactly the requested power law")
def cube(c):
    n, p = c["n"], c["p"]
    kw = dict(powerlaw=p, amp=c["amp"], randomseed=c["seed"])
    x = np.asarray(make_3dfield(n, **kw))
    require(x.shape == (n, n, n), "shape %s for size %d" % (x.shape, n))
    ft = np.fft.fftn(x)
    k = np.fft.fftfreq(n)
    g = np.meshgrid(k, k, k, indexing="ij")
    rr = np.sqrt(sum(y ** 2 for y in g))
    check_law(np.abs(ft), rr, ~conj_modes(n, 3), p, "field")
    close(np.sqrt((x ** 2).mean()), c["amp"], "rms", rtol=1e-9)
    if p > 0:
        close(x.mean(), 0., "mean", atol=1e-10 * c["amp"])
    half = np.asarray(make_3dfield(n, return_fft=True, **kw))
    close(half, np.fft.rfftn(x), "transform", rtol=1e-9)
    return n > 5


@facet(st.fixed_dictionaries(dict(
    n=st.integers(6, 16), seed=gen.SEED, other=gen.SEED,
    glob=gen.SEED)), quick=60, thorough=1000,
    rule="fields depend on the seed only and leave the global random state "
         "alone; the phases differ between seeds and between modes")
def seeds(c):
    for f in (make_extended, make_3dfield):
        np.random.seed(c["glob"] % 2 ** 32)
        a = f(c["n"], powerlaw=2., randomseed=c["seed"])
        r = np.random.rand(3)
        np.random.seed(c["glob"] % 2 ** 32)
        close(np.random.rand(3), r, "global random state after %s" %
              f.__name__, rtol=0)
        close(f(c["n"], powerlaw=2., randomseed=c["seed"]), a,
              "same seed", rtol=0)
        if c["seed"] != c["other"]:
            b = f(c["n"], powerlaw=2., randomseed=c["other"])
            require(not np.allclose(a / a.std(), b / b.std()),
                    "two seeds give the same field")
        s = f(c["n"], powerlaw=3., randomseed=c["seed"])
        pa, ps = np.fft.fftn(a), np.fft.fftn(s)
        big = np.abs(pa) > 1e-9 * np.abs(pa).max()
        close((pa / np.abs(pa) / (ps / np.abs(ps)))[big],
              np.ones(big.sum()), "phases do not depend on the index",
              atol=1e-6)
        # phases fill the circle
        ph = np.angle(pa[big])
        require(np.unique(np.round(ph, 6)).size > 0.3 * big.sum(),
                "repeated phases")
    return True


@facet(st.fixed_dictionaries(dict(
    shape=st.one_of(st.integers(5, 13).map(lambda n: [n] * 3),
                    st.tuples(*[st.integers(4, 11)] * 3).map(list)),
    seed=gen.SEED)), quick=80, thorough=1500,
    rule="radial bins of the 3D power are means over their shells")
def spectrum3d(c):
    a = np.random.RandomState(c["seed"] % 2 ** 32).normal(size=c["shape"])
    f, ps, sd = threeD_pspec(a)
    P = ref.dft_abs(a) ** 2
    k = np.meshgrid(*[np.fft.fftfreq(n) for n in a.shape], indexing="ij")
    rr = np.sqrt(sum(x ** 2 for x in k)).ravel()
    P = P.ravel()
    n = float(max(a.shape))
    close(f, np.arange(1, len(f) + 1) / n, "frequencies", rtol=1e-9)
    require(f[-1] < 0.5 + 1e-9 and f[-1] >= 0.5 - 1 / n - 1e-9,
            "frequencies up to 0.5")
    require(len(ps) == len(f) and len(sd) == len(f), "one value per bin")
    done = 0
    for i in range(len(f) - 1):
        lo, hi = f[i], f[i + 1]
        edge = (np.abs(rr - lo) < 1e-9) | (np.abs(rr - hi) < 1e-9)
        m = (rr >= lo) & (rr < hi)
        if (edge & True).any():
            # shells that touch an edge exactly: bound by rounding
            both = m | edge
            inner = m & ~edge
            if not inner.any():
                continue
            cand = np.sort(P[edge])
            tot, cnt = P[inner].sum(), inner.sum()
            lows = min((tot + cand[:j].sum()) / (cnt + j)
                       for j in range(len(cand) + 1))
            his = max((tot + cand[::-1][:j].sum()) / (cnt + j)
                      for j in range(len(cand) + 1))
            require(lows * (1 - 1e-9) <= ps[i] <= his * (1 + 1e-9),
                    "shell %d: %r outside [%r, %r]" % (i, ps[i], lows, his))
            done += both.any()
            continue
        if not m.any():
            continue
        close(ps[i], P[m].mean(), "shell %d" % i, rtol=1e-8)
        close(sd[i], P[m].std(), "shell %d scatter" % i, rtol=1e-6,
              atol=1e-8 * P.max())
        done += 1
    raises(ValueError, lambda: threeD_pspec(a[0]), "a 2D array")
    return done > 0


@facet(st.fixed_dictionaries(dict(e=st.sampled_from(
    [0., -0.5, 1.0001, 2., -1.]), n=st.integers(4, 12))), quick=10,
    thorough=30, rule="impossible axis ratios are refused")
def refused(c):
    raises(ValueError, lambda: make_extended(c["n"], ellip=c["e"]),
           "ellip = %s" % c["e"])
    return True
