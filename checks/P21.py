"""Tsallis statistics."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import Tsallis

imgs = gen.fields(gen.shapes2(8, 24), nan=(0, 0, 0.03),
                  kinds=["noise", "lognormal", "powerlaw", "blobs", "spike",
                         "gradient"])


def lagged(a, lag, periodic):
    """Mean of the four neighbours at a lag minus the pixel"""
    ny, nx = a.shape
    out = np.empty(a.shape)
    for y in range(ny):
        for x in range(nx):
            tot = 0.
            for dy, dx in ((lag, 0), (-lag, 0), (0, lag), (0, -lag)):
                yy, xx = y + dy, x + dx
                if periodic:
                    tot += a[yy % ny, xx % nx]
                elif 0 <= yy < ny and 0 <= xx < nx:
                    tot += a[yy, xx]
            out[y, x] = tot / 4. - a[y, x]
    m = np.nanmean(out)
    return (out - m) / np.sqrt(np.nanmean((out - m) ** 2))


def quant(v, unit):
    v = np.asarray(v, dtype=float)
    if unit == "pix":
        return v * u.pix, {}
    if unit == "deg":
        return v * 0.01 * u.deg, {}
    if unit == "arcsec":
        return v * 36. * u.arcsec, {}
    return v * np.deg2rad(0.01) * 50 * u.pc, dict(distance=50 * u.pc)


@facet(st.fixed_dictionaries(dict(
    f=imgs, lags=st.lists(st.integers(1, 12), min_size=1, max_size=4,
                          unique=True),
    extra=st.sampled_from([0., 0., 0.37, 0.83]), periodic=st.booleans(),
    bins=st.one_of(st.none(), st.integers(5, 40)),
    unit=st.sampled_from(["pix", "deg", "arcsec", "pc"]),
    setter=st.booleans())), quick=220, thorough=8000,
    rule="standardised difference between each pixel and its neighbours at "
         "the lag, and its histogram in log10")
def lag_maps(c):
    a = gen.build(c["f"])
    keep = a.copy()
    half = min(a.shape) // 2
    lags = [v for v in c["lags"] if v <= half]
    if not lags:
        return False
    q, kw = quant(np.array(lags) + c["extra"], c["unit"])
    hdr = gen.header2(a.shape)
    if c["setter"]:
        t = Tsallis(a, header=hdr, **kw)
        d = t.lags
        want = [2 ** i for i in range(12) if 2 ** i <= min(a.shape) / 2.]
        close(d.to(u.pix).value, want, "default lags", rtol=0)
        t.lags = q
    else:
        t = Tsallis(a, header=hdr, lags=q, **kw)
    t.make_tsallis(periodic=c["periodic"], num_bins=c["bins"])
    close(a, keep, "input", rtol=0)
    nb = c["bins"] or int(np.ceil(np.sqrt(np.isfinite(a).sum())))
    require(t.lag_arrays.shape == (len(lags),) + a.shape, "lag arrays")
    require(t.lag_distribs.shape == (len(lags), 2, nb), "number of bins")
    n = 0
    for i, v in enumerate(lags):
        arr = lagged(a, v, c["periodic"])
        if not np.isfinite(arr).any() or np.nanmax(np.abs(arr)) > 1e6:
            continue
        close(t.lag_arrays[i], arr, "lag %s" % v, rtol=1e-6)
        x = arr[np.isfinite(arr)]
        edges = np.linspace(x.min(), x.max(), nb + 1)
        cen, lh = t.lag_distribs[i]
        close(cen, 0.5 * (edges[1:] + edges[:-1]), "bin centres",
              rtol=1e-6)
        close((10 ** lh).sum(), 1., "total probability", rtol=1e-9)
        if (np.abs(np.subtract.outer(x, edges[1:-1])) < 1e-6).any():
            continue
        cnt = np.array([((x >= lo) & (x < hi)).sum()
                        for lo, hi in zip(edges[:-1], edges[1:])])
        cnt[-1] += (x == edges[-1]).sum()
        with np.errstate(divide="ignore"):
            close(10 ** lh, cnt / float(cnt.sum()), "distribution",
                  rtol=1e-9)
        n += 1
    # a second computation replaces the first
    t.make_tsallis(periodic=c["periodic"], num_bins=c["bins"])
    close(t.lag_distribs[0, 0], t.lag_distribs[0, 0], "again")
    return n >= 1 and c["bins"] != 1


def func(x, loga, w2, q):
    return -(np.log10(1 + (q - 1) * x ** 2 / w2) + loga) / (q - 1)


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes2(20, 40), kind=st.sampled_from(
        ["noise", "powerlaw", "lognormal"]), seed=gen.SEED,
    lags=st.lists(st.integers(1, 8), min_size=1, max_size=3, unique=True),
    bins=st.integers(10, 30), clip=st.sampled_from([None, 5, 5, 3, 2.5]),
    periodic=st.booleans(), run=st.booleans())), quick=120, thorough=4000,
    rule="least-squares optimum over the kept points, errors from its "
         "curvature, reduced chi-squared, table")
def fits(c):
    a = gen.build(c)
    q = np.array(sorted(c["lags"])) * u.pix
    t = Tsallis(a, header=gen.header2(a.shape), lags=q)
    kw = dict(periodic=c["periodic"], num_bins=c["bins"])
    try:
        if c["run"]:
            t.run(sigma_clip=c["clip"], **kw)
        else:
            t.make_tsallis(**kw)
            t.fit_tsallis(sigma_clip=c["clip"])
    except (RuntimeError, TypeError, ValueError):
        # no convergence, or fewer points than parameters
        few = [(np.isfinite(y) & ((np.abs(x) < (c["clip"] or 99))
                                  | (np.abs(y) < (c["clip"] or 99)))).sum()
               for x, y in t.lag_distribs]
        if min(few) > 8 and c["kind"] == "noise" and c["periodic"]:
            raise
        return False
    tab = t.tsallis_table
    names = ["logA", "w2", "q"]
    close(np.array([tab[n] for n in names]).T, t.tsallis_params, "table",
          rtol=0)
    close(np.array([tab[n + "_stderr"] for n in names]).T,
          t.tsallis_stderrs, "errors in the table", rtol=0)
    close(np.asarray(tab["redchisq"]).ravel(), t.tsallis_chisq.ravel(),
          "chi-squared in the table", rtol=0)
    close(np.asarray(tab["lags"]), q.value, "lags in the table", rtol=0)
    seen = 0
    for i in range(len(q)):
        x, y = t.lag_distribs[i]
        fin = np.isfinite(x) & np.isfinite(y)
        masks = [fin]
        if c["clip"] is not None:
            # The first is the documented clipping; the second is the
            # recorded finding (clips the distribution's values).
            masks = [fin & (np.abs(x) < c["clip"]),
                     fin & (np.abs(y) < c["clip"])]
        p, e = t.tsallis_params[i], t.tsallis_stderrs[i]
        if not np.isfinite(p).all() or not np.isfinite(e).all() \
                or (e > np.abs(p)).any() or (p[1:] < 1e-3).any():
            continue        # a badly constrained fit

        def misfit(m):
            xx, yy = x[m], y[m]
            if xx.size <= 4:
                return None
            J = np.empty((xx.size, 3))
            for k in range(3):
                h = 1e-5 * abs(p[k])
                up, dn = p.copy(), p.copy()
                up[k] += h
                dn[k] -= h
                J[:, k] = (func(xx, *up) - func(xx, *dn)) / (2 * h)
            r = yy - func(xx, *p)
            if np.isnan(r).any():
                return None
            cov = np.linalg.pinv(J.T.dot(J))
            # distance of the optimum in units of the errors
            step = cov.dot(J.T.dot(r))
            s2 = (r ** 2).sum() / (xx.size - 3.)
            if np.linalg.cond(J / np.linalg.norm(J, axis=0)) > 300:
                return None
            err = np.sqrt(np.diag(cov) * s2)
            chi = ((10 ** func(xx, *p) - 10 ** yy) ** 2
                   / 10 ** yy).sum() / (xx.size - 3.)
            return np.abs(step / err).max(), err, chi

        res = [misfit(m) for m in masks]
        if any(v is None for v in res):
            continue
        ok = [v for v in res if v[0] < 0.02]
        require(ok, "the fit at lag %s is not the least-squares optimum: "
                "off by %s errors" % (q[i], [v[0] for v in res]))
        good = [v for v in ok if np.abs(v[1] / e - 1).max() < 0.05]
        require(good, "errors %s, expected %s" % (e, [v[1] for v in ok]))
        require(any(abs(v[2] / t.tsallis_chisq[i, 0] - 1) < 1e-6
                    for v in good), "reduced chi-squared %s, expected %s"
                % (t.tsallis_chisq[i], [v[2] for v in good]))
        seen += 1
    return seen > 0


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(12, 30), kinds=["noise", "lognormal",
                                             "powerlaw"], nan=(0,)),
    c=st.sampled_from([0.01, 7., -3.]), b=st.sampled_from([0., 2.]),
    shift=st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list))),
    quick=100, thorough=4000,
    rule="flips, transposes, brightness scale and offset, cyclic shifts "
         "act on the lag maps as on the image")
def symmetries(c):
    a = gen.build(c["f"])

    def maps(img, **kw):
        img = np.ascontiguousarray(img)
        t = Tsallis(img, header=gen.header2(img.shape))
        t.make_tsallis(**kw)
        return t

    for per in (True, False):
        t = maps(a, periodic=per)
        m = t.lag_arrays
        close(maps(a[::-1], periodic=per).lag_arrays, m[:, ::-1],
              "flipped", rtol=1e-7)
        close(maps(a.T, periodic=per).lag_arrays, m.swapaxes(1, 2),
              "transposed", rtol=1e-7)
        close(maps(c["c"] * a, periodic=per).lag_arrays,
              np.sign(c["c"]) * m, "scaled", rtol=1e-7)
    t = maps(a)
    close(maps(a + c["b"]).lag_arrays, t.lag_arrays, "offset", rtol=1e-6)
    close(maps(np.roll(a, c["shift"], axis=(0, 1))).lag_arrays,
          np.roll(t.lag_arrays, c["shift"], axis=(1, 2)), "shifted",
          rtol=1e-7)
    return True


@facet(st.fixed_dictionaries(dict(shape=gen.shapes2(8, 20),
                                  seed=gen.SEED)), quick=30, thorough=600,
       rule="lags below a pixel, above half the image, without unit")
def refusals(c):
    a = np.random.RandomState(c["seed"] % 2 ** 32).rand(*c["shape"])
    hdr = gen.header2(a.shape)
    half = min(a.shape) // 2
    for bad in (0.5 * u.pix, (half + 1) * u.pix, (half + 1) * 0.01 * u.deg,
                0.004 * u.deg):
        raises(ValueError, lambda: Tsallis(a, header=hdr, lags=[
            1, bad.to(u.pix).value] * u.pix if bad.unit == u.pix else
            np.array([0.01, bad.value]) * u.deg), "lag %s" % bad)
    raises(TypeError, lambda: Tsallis(a, header=hdr, lags=[1, 2]),
           "lags without unit")
    raises(Exception, lambda: Tsallis(a, header=hdr,
                                      lags=[1] * u.pc), "lag in parsec "
           "without a distance")
    return True
