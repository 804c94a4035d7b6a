"""Strategies and constructors for inputs: every drawn value is JSON."""
import numpy as np
from hypothesis import strategies as st
from astropy.io import fits
from .core import Violation

SEED = st.integers(0, 2 ** 31 - 1)


def sizes(lo, hi):
    return st.integers(lo, hi)


def shapes2(lo=8, hi=24, square=False):
    if square:
        return sizes(lo, hi).map(lambda n: [n, n])
    return st.one_of(sizes(lo, hi).map(lambda n: [n, n]),
                     st.tuples(sizes(lo, hi), sizes(lo, hi)).map(list),
                     st.tuples(sizes(lo, hi), sizes(lo, hi)).map(list))


def shapes3(vlo=3, vhi=10, lo=4, hi=12):
    return st.tuples(sizes(vlo, vhi), sizes(lo, hi), sizes(lo, hi)).map(list)


KINDS = ["noise", "lognormal", "powerlaw", "ints", "blobs", "spike",
         "gradient"]


def fields(shape_st, kinds=None, nan=(0, 0, 0, 0.05, 0.2), dtypes=("f8",),
           offsets=(0., 0., 3., -2.), scales=(1., 1., 1e-3, 50.)):
    """A data array description; see `build`."""
    return st.fixed_dictionaries(dict(
        shape=shape_st,
        kind=st.sampled_from(list(kinds or KINDS)),
        seed=SEED,
        scale=st.sampled_from(list(scales)),
        offset=st.sampled_from(list(offsets)),
        nan=st.sampled_from(list(nan)),
        dtype=st.sampled_from(list(dtypes)),
    ))


def build(d):
    """Array from a field description (a pure function of it)."""
    shape = tuple(d["shape"])
    rng = np.random.RandomState(d["seed"] % (2 ** 32))
    kind = d["kind"]
    if kind == "noise":
        a = rng.normal(size=shape)
    elif kind == "lognormal":
        a = np.exp(rng.normal(size=shape))
    elif kind == "powerlaw":
        a = rng.normal(size=shape)
        k2 = sum(np.meshgrid(*[np.fft.fftfreq(n) ** 2 for n in shape],
                             indexing="ij"))
        k2.flat[0] = 1.
        a = np.fft.ifftn(np.fft.fftn(a) * k2 ** (-0.75)).real
        s = a.std()
        a = a / (s if s > 0 else 1.)
    elif kind == "ints":
        a = rng.randint(-3, 7, size=shape).astype(float)
    elif kind == "blobs":
        a = 0.02 * rng.normal(size=shape)
        grids = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
        for _ in range(1 + rng.randint(4)):
            r2 = 0.
            for g, n in zip(grids, shape):
                w = 0.5 + rng.rand() * n / 4.
                r2 = r2 + (g - rng.rand() * n) ** 2 / w ** 2
            a = a + (0.5 + rng.rand()) * np.exp(-r2)
    elif kind == "spike":
        a = 0.1 * rng.normal(size=shape)
        a[tuple(rng.randint(n) for n in shape)] += 10.
    elif kind == "gradient":
        grids = np.meshgrid(*[np.arange(n) / float(n) for n in shape],
                            indexing="ij")
        a = sum((rng.rand() - 0.3) * 4 * g for g in grids) \
            + 0.05 * rng.normal(size=shape)
    elif kind == "positive":
        a = 0.1 + rng.rand(*shape)
    else:
        raise ValueError(kind)
    a = a * d.get("scale", 1.) + d.get("offset", 0.)
    if d.get("nan", 0):
        mask = rng.rand(*shape) < d["nan"]
        a = a.copy()
        a[mask] = np.nan
    dt = d.get("dtype", "f8")
    return np.ascontiguousarray(a).astype(np.dtype(dt))


def header2(shape, pix=0.01, beam=None, restfreq=1.42e9, bunit="K"):
    """2D header: square celestial pixels of `pix` degrees."""
    h = fits.Header()
    h["NAXIS"] = 2
    h["NAXIS1"], h["NAXIS2"] = int(shape[1]), int(shape[0])
    h["CTYPE1"], h["CTYPE2"] = "GLON-CAR", "GLAT-CAR"
    h["CUNIT1"], h["CUNIT2"] = "deg", "deg"
    h["CDELT1"], h["CDELT2"] = -pix, pix
    h["CRPIX1"], h["CRPIX2"] = shape[1] / 2. + 0.5, shape[0] / 2. + 0.5
    h["CRVAL1"], h["CRVAL2"] = 0., 0.
    h["BUNIT"] = bunit
    if beam is not None:
        h["BMAJ"], h["BMIN"], h["BPA"] = beam, beam, 0.
    h["RESTFRQ"] = restfreq
    return h


def header3(shape, pix=0.01, dv=100., v0=-500., vunit="m/s", beam=None,
            restfreq=1.42e9, bunit="K"):
    h = header2(shape[1:], pix=pix, beam=beam, restfreq=restfreq, bunit=bunit)
    h["NAXIS"] = 3
    h["NAXIS3"] = int(shape[0])
    h["CTYPE3"], h["CUNIT3"] = "VRAD", vunit
    h["CDELT3"], h["CRPIX3"], h["CRVAL3"] = dv, 1., v0
    h["SPECSYS"] = "LSRK"
    return h


def to_pix(q, pix=0.01, dist=None):
    """Lengths in pixels of `pix` degrees (at `dist` pc)."""
    import astropy.units as u
    if q.unit == u.pix:
        return q.value
    if q.unit.is_equivalent(u.deg):
        return q.to(u.deg).value / pix
    return q.to(u.pc).value / dist / np.deg2rad(pix)


def _arr(x):
    if hasattr(x, "unit") and hasattr(x, "value"):
        x = x.value
    return np.asarray(x)


def close(got, want, what="value", rtol=1e-7, atol=0., scale=None,
          equal_nan=True):
    """Raise Violation unless `got` equals `want` to rounding.

    The absolute tolerance is rtol times the largest finite magnitude in
    `want` (so rounding in sums that cancel is not reported)."""
    g, w = _arr(got), _arr(want)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape,
                                                       w.shape))
    if g.size == 0:
        return
    g = g.astype(complex if np.iscomplexobj(g) or np.iscomplexobj(w)
                 else float)
    w = w.astype(g.dtype)
    gn, wn = np.isnan(g), np.isnan(w)
    if not (gn == wn).all():
        i = tuple(np.argwhere(gn != wn)[0])
        raise Violation("%s: NaN pattern differs at %s: got %r expected %r"
                        % (what, i, g[i], w[i]))
    if not equal_nan and gn.any():
        raise Violation("%s: unexpected NaN" % what)
    ok = ~gn
    gi, wi = np.isinf(g), np.isinf(w)
    if not (gi == wi).all() or not (g[gi] == w[wi]).all():
        raise Violation("%s: infinities differ" % what)
    ok &= ~gi
    if not ok.any():
        return
    s = np.abs(w[ok]).max() if scale is None else scale
    tol = rtol * s + atol + 1e-300
    d = np.abs(g - w)
    d = np.where(ok, d, 0.)
    if d.max() > tol:
        i = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
        raise Violation("%s: got %r expected %r at %s (diff %.3g > %.3g)"
                        % (what, g[i], w[i], i, d.max(), tol))


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def raises(exc, fn, msg):
    """fn() must raise one of exc (any Exception when exc is None)."""
    try:
        fn()
    except (exc or Exception):
        return
    raise Violation("accepted: " + msg)


def with_unit(unit):
    import astropy.units as u
    return u.Unit(unit)
