"""Bispectrum and bicoherence."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import Bispectrum

RULE = "the bicoherence surface is not constant"


def reference(a, nsamples, seed, meansub):
    """Sampled triple products over random pairs of directions"""
    a = np.where(np.isnan(a), 0., a)
    if meansub:
        a = a - a.mean()
    ny, nx = a.shape
    F = np.fft.fft2(a)
    rng = np.random.RandomState(seed)
    B = np.zeros((ny // 2, nx // 2), complex)
    N = np.zeros((ny // 2, nx // 2))
    count = np.zeros((ny, nx), int)

    def tr(v):
        # trig of 0 and right angles is inexact; never hit by random angles
        return np.trunc(v).astype(int)

    for k1 in range(ny // 2):
        for k2 in range(nx // 2):
            p = rng.uniform(0, 2 * np.pi, nsamples)
            q = rng.uniform(0, 2 * np.pi, nsamples)
            vx, vy = k1 * np.cos(p), k1 * np.sin(p)
            wx, wy = k2 * np.cos(q), k2 * np.sin(q)
            i1 = (tr(vx) % ny, tr(vy) % nx)
            i2 = (tr(wx) % ny, tr(wy) % nx)
            i3 = (tr(vx + wx) % ny, tr(vy + wy) % nx)
            t = F[i1] * F[i2] * np.conj(F[i3])
            B[k1, k2] = t.sum()
            N[k1, k2] = np.abs(t).sum()
            for i in (i1, i2, i3):
                for j in zip(*i):
                    count[j] += 1
    return B, N, count


imgs = gen.fields(gen.shapes2(6, 16), nan=(0, 0, 0.06))


@facet(st.fixed_dictionaries(dict(
    f=imgs, ns=st.integers(3, 25), seed=st.integers(0, 5000),
    meansub=st.booleans(), pyfftw=st.booleans(), run=st.booleans())),
    quick=150, thorough=4000,
    rule="sum of sampled triple products; bicoherence its modulus over the "
         "sum of moduli")
def surface(c):
    a = gen.build(c["f"])
    keep = a.copy()
    b = Bispectrum(a)
    kw = dict(show_progress=False, nsamples=c["ns"], seed=c["seed"],
              mean_subtract=c["meansub"], use_pyfftw=c["pyfftw"])
    (b.run if c["run"] else b.compute_bispectrum)(**kw)
    close(a, keep, "input image", rtol=0)
    B, N, count = reference(a, c["ns"], c["seed"], c["meansub"])
    tot = np.abs(np.nan_to_num(a)).sum() ** 3 * c["ns"]
    close(b.bispectrum, B, "bispectrum", rtol=1e-8, atol=1e-12 * tot)
    close(b.tracker, count, "sample counts", rtol=0)
    ok = N > 1e-9 * tot
    with np.errstate(all="ignore"):
        close(b.bicoherence[ok], (np.abs(B) / N)[ok], "bicoherence",
              rtol=1e-6, scale=1.)
        sig = ok & (np.abs(B) > 1e-6 * N)
        close(b.bispectrum_logamp[sig], np.log10(np.abs(B))[sig],
              "log amplitude", rtol=1e-6, scale=1.)
    bc = b.bicoherence[np.isfinite(b.bicoherence)]
    require((bc >= 0).all() and (bc <= 1 + 1e-9).all(),
            "bicoherence outside [0, 1]")
    return ok.any() and np.ptp(bc) > 1e-6


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(6, 18), nan=(0, 0.06)),
    ns=st.integers(3, 20), seed=st.integers(0, 5000),
    c=st.sampled_from([1e-3, 0.4, 30., -2.]))), quick=80, thorough=2500,
    rule="scaling, repeatability, triples with a zero frequency, repeated "
         "computation, phase invariances")
def relations(c):
    a = gen.build(c["f"])

    def bi(img, **kw):
        b = Bispectrum(np.ascontiguousarray(img))
        b.run(show_progress=False, nsamples=c["ns"], seed=c["seed"], **kw)
        return b

    b = bi(a)
    close(bi(a).bispectrum, b.bispectrum, "repeated", rtol=0)
    tot = np.abs(np.nan_to_num(a)).sum() ** 3 * c["ns"]
    b2 = bi(a * c["c"])
    close(b2.bispectrum, b.bispectrum * c["c"] ** 3, "scaled bispectrum",
          rtol=1e-8, atol=1e-12 * tot * abs(c["c"]) ** 3)
    good = np.abs(b.bispectrum) > 1e-7 * tot
    close(b2.bicoherence[good], b.bicoherence[good], "scaled bicoherence",
          rtol=1e-6, scale=1.)
    # F(0) |F(k)|^2 has a fixed phase: full coherence
    for cut in (np.s_[0, :], np.s_[:, 0]):
        m = good[cut]
        close(b.bicoherence[cut][m], np.ones(m.sum()),
              "bicoherence of triples with a zero frequency", rtol=1e-6)
    # one object used twice gives the same answer
    first = b.bispectrum.copy()
    b.run(show_progress=False, nsamples=c["ns"] + 2, seed=c["seed"] + 1)
    b.run(show_progress=False, nsamples=c["ns"], seed=c["seed"])
    close(b.bispectrum, first, "second computation", rtol=0)
    # missing pixels are zeros
    z = np.where(np.isnan(a), 0., a)
    close(bi(z).bispectrum, first, "NaNs are zeros", rtol=0)
    close(bi(z - z.mean()).bispectrum[1:, 1:],
          bi(z, mean_subtract=True).bispectrum[1:, 1:], "mean subtraction",
          rtol=1e-9, atol=1e-12 * tot)
    require(b.bispectrum.shape == tuple(n // 2 for n in a.shape), "shape")
    return np.ptp(b.bicoherence[np.isfinite(b.bicoherence)]) > 1e-6


def stat(coord, vals, edges, i):
    """(mean, std, clear) of the samples of bin i"""
    lo, hi = edges[i], edges[i + 1]
    eps = 1e-9
    near = (np.abs(coord - lo) < eps) & (lo > 0) | (np.abs(coord - hi) < eps)
    m = (coord >= lo) & (coord < hi)
    v = vals[m]
    if near.any():
        return 0, 0, False
    if not v.size:
        return np.nan, np.nan, True
    return v.mean(), np.sqrt((np.abs(v - v.mean()) ** 2).mean()), True


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(10, 36), nan=(0,),
                 kinds=["noise", "lognormal", "powerlaw"]),
    value=st.sampled_from(["bispectrum", "bispectrum_logamp",
                           "bicoherence"]),
    rad=st.lists(st.integers(1, 14), min_size=1, max_size=3, unique=True),
    width=st.sampled_from([1.37, 2.71, 4.33]), tie=st.booleans(),
    widths=st.booleans(),
    ang=st.lists(st.integers(5, 85), min_size=1, max_size=3, unique=True),
    dang=st.sampled_from([11.37, 31.33, 60.71]),
    bw=st.sampled_from([7.3, 11., 20.]), rbw=st.sampled_from([1., 2.3, 4.]),
    scalar=st.booleans(), unit=st.sampled_from(["deg", "rad"]))),
    quick=100, thorough=3000,
    rule="slices average the surface in exactly the requested ring or wedge")
def slices(c):
    a = gen.build(c["f"])
    b = Bispectrum(a)
    b.run(show_progress=False, nsamples=5)
    surf = getattr(b, c["value"])
    ky, kx = np.meshgrid(*[np.arange(n) for n in surf.shape], indexing="ij")
    dist, theta = np.hypot(ky, kx), np.arctan2(ky, kx)
    fin = np.isfinite(surf)
    n = 0
    # rings
    radii = [r + 0.173 for r in c["rad"]]
    wid = [c["width"] + (0.611 * i if c["widths"] else 0.)
           for i in range(len(radii))]
    if c.get("tie"):
        # whole radii: both edges of the ring belong to it
        radii = [float(r) for r in c["rad"]]
        wid = [2. * int(w) for w in wid]
    keep = [i for i, (r, w) in enumerate(zip(radii, wid))
            if (fin & (np.abs(dist - r) <= w / 2.)).any()]
    if not keep:
        return False
    radii, wid = [radii[i] for i in keep], [wid[i] for i in keep]
    if not c["widths"]:
        wid = [wid[0]] * len(radii)
    one = c["scalar"] and len(radii) == 1
    out, masks = b.azimuthal_slice(
        radii[0] if one else np.array(radii),
        np.array(wid) if c["widths"] and not one else wid[0],
        bin_width=(c["bw"] * u.deg).to(c["unit"]), value=c["value"],
        return_masks=True)
    out2 = b.azimuthal_slice(
        radii[0] if one else np.array(radii),
        np.array(wid) if c["widths"] and not one else wid[0],
        bin_width=(c["bw"] * u.deg).to(c["unit"]), value=c["value"])
    require(len(out) == len(radii) == len(masks), "one slice per radius")
    for r, w, m in zip(radii, wid, masks):
        want = np.abs(dist - r) <= w / 2.
        require((m == want).all(), "ring mask")
        cen, val, sd = out[r]
        close(out2[r], out[r], "slices without masks", rtol=0)
        step = np.diff(np.real(cen)).mean() if len(cen) > 1 else np.pi
        require(abs(step - np.deg2rad(c["bw"])) < 0.3 * np.deg2rad(c["bw"]),
                "angular bins %r rad wide" % step)
        edges = np.linspace(0, np.pi, len(cen) + 1)
        close(np.real(cen), 0.5 * (edges[1:] + edges[:-1]), "bin centres")
        for i in range(len(cen)):
            mu, s, clear = stat(theta[want & fin], surf[want & fin], edges, i)
            if clear:
                sc = np.abs(surf[want & fin]).max() if (want & fin).any() \
                    else 1.
                close(np.array(val[i]), np.array(mu), "ring mean",
                      rtol=1e-9, scale=sc)
                close(np.array(sd[i]), np.array(s), "ring scatter",
                      rtol=1e-7, scale=sc)
                n += np.isfinite(mu)
    # wedges
    angs = [v + 0.0317 for v in c["ang"]]
    dan = [c["dang"] + (5.13 * i if c["widths"] else 0.)
           for i in range(len(angs))]
    keep = [i for i, (r, w) in enumerate(zip(angs, dan)) if (
        fin & (np.abs(theta - np.deg2rad(r)) <= np.deg2rad(w) / 2.)).any()]
    if not keep or dist.max() / c["rbw"] < 3:
        return n >= 3
    angs, dan = [angs[i] for i in keep], [dan[i] for i in keep]
    q = (np.array(angs) * u.deg).to(c["unit"])
    dq = (np.array(dan) * u.deg).to(c["unit"])
    one = c["scalar"] and len(angs) == 1
    out, masks = b.radial_slice(
        q[0] if one else q, dq if c["widths"] and not one else dq[0],
        bin_width=c["rbw"], value=c["value"], return_masks=True)
    bare = b.radial_slice(
        q[0] if one else q, dq if c["widths"] and not one else dq[0],
        bin_width=c["rbw"], value=c["value"])
    require(sorted(bare) == sorted(out), "slices at %r" % sorted(bare))
    for key in out:
        close(bare[key], out[key], "slices without the masks", rtol=0)
    for t, key, d, m in zip(angs, q.value, dan, masks):
        want = np.abs(theta - np.deg2rad(t)) <= np.deg2rad(d) / 2.
        require((m == want).all(), "wedge mask")
        cen, val, sd = out[key]
        edges = np.linspace(0, dist.max(), len(cen) + 1)
        close(np.real(cen), 0.5 * (edges[1:] + edges[:-1]), "radial bins")
        step = edges[1] - edges[0]
        if len(cen) > 3:
            require(c["rbw"] * 0.7 < step < c["rbw"] * 1.8,
                    "radial bins %r wide" % step)
        for i in range(len(cen)):
            mu, s, clear = stat(dist[want & fin], surf[want & fin], edges, i)
            if clear:
                sc = np.abs(surf[want & fin]).max() if (want & fin).any() \
                    else 1.
                close(np.array(val[i]), np.array(mu), "wedge mean",
                      rtol=1e-9, scale=sc)
                close(np.array(sd[i]), np.array(s), "wedge scatter",
                      rtol=1e-7, scale=sc)
                n += np.isfinite(mu)
    return n >= 3


@facet(st.integers(0, 100), quick=4, thorough=20,
       rule="bad slices are refused")
def refusals(c):
    b = Bispectrum(np.random.RandomState(c).rand(16, 16))
    b.run(show_progress=False, nsamples=5)
    raises(TypeError, lambda: b.azimuthal_slice(3, 2, value="phase"),
           "unknown surface")
    raises(TypeError, lambda: b.radial_slice(30 * u.deg, 10 * u.deg,
                                             value="phase"),
           "unknown surface")
    raises(TypeError, lambda: b.azimuthal_slice(3, 2, bin_width=5.),
           "bin width without unit")
    raises(TypeError, lambda: b.azimuthal_slice(3, 2, bin_width=5. * u.m),
           "bin width in metres")
    raises(TypeError, lambda: b.radial_slice(30., 10 * u.deg),
           "angle without unit")
    raises(TypeError, lambda: b.radial_slice(30. * u.deg, 10),
           "angle without unit")
    raises(ValueError, lambda: b.azimuthal_slice(
        np.array([3., 4.]), np.array([1., 1., 1.])), "mismatched widths")
    raises(ValueError, lambda: b.radial_slice(
        [30., 40.] * u.deg, [1., 1., 1.] * u.deg), "mismatched widths")
    return True
