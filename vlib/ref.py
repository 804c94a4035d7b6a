"""Independent reference implementations used as oracles.

Nothing here imports turbustat.  They are written from the documentation and
the published definitions, favouring obviousness over speed.
"""
import numpy as np
from scipy.stats import t as t_dist
from .core import Violation
from .gen import close


# ----------------------------------------------------------------- Fourier

def dft_abs(a):
    """|DFT| from the definition, one dense DFT matrix per axis."""
    out = np.asarray(a, dtype=complex)
    for ax, n in enumerate(out.shape):
        k = np.arange(n)
        w = np.exp(-2j * np.pi * np.outer(k, k) / n)
        out = np.moveaxis(np.tensordot(w, out, axes=(1, ax)), 0, ax)
    return np.abs(out)


def shifted_freqs(n):
    """Frequencies (cycles per pixel), ascending, zero at index n // 2."""
    return (np.arange(n) - n // 2) / float(n)


def freq_grids(shape):
    fy, fx = shifted_freqs(shape[0]), shifted_freqs(shape[1])
    return np.meshgrid(fy, fx, indexing="ij")


def power2d(img):
    """(power, |k|) with matching, zero-centred ordering."""
    p = dft_abs(img) ** 2
    p = np.roll(p, (img.shape[0] // 2, img.shape[1] // 2), axis=(0, 1))
    fy, fx = freq_grids(img.shape)
    return p, np.hypot(fy, fx)


class Radial(object):
    """Reference radial profile on given (distance, value) samples.

    Bins whose membership hinges on a distance lying on a bin edge to within
    rounding are compared only to the range their value may take.
    """

    def __init__(self, dist, vals, edges):
        ok = np.isfinite(vals)
        self.dist, self.vals = dist[ok].ravel(), vals[ok].ravel()
        self.edges = edges
        self.n = len(edges) - 1

    def groups(self, i):
        """(samples certainly inside bin i, [alternatives])"""
        lo, hi = self.edges[i], self.edges[i + 1]
        eps = 1e-9 * max(abs(self.edges[-1]), 1e-300)
        inside = (self.dist > lo + eps) & (self.dist < hi - eps)
        on_lo = np.abs(self.dist - lo) <= eps
        on_hi = np.abs(self.dist - hi) <= eps
        # conventional assignment: closed below, open above (last closed)
        conv = inside | on_lo
        if i == self.n - 1:
            conv = conv | on_hi
        alts = [conv]
        if on_lo.any() or on_hi.any():
            alts += [inside, inside | on_lo, inside | on_hi,
                     inside | on_lo | on_hi]
        return [self.vals[m] for m in alts]

    def compare(self, got_mean, got_std, what, rtol=1e-7, stat=np.mean,
                mask_singletons=True):
        if len(got_mean) != self.n:
            raise Violation("%s: %d bins, expected %d" % (
                what, len(got_mean), self.n))
        filled = 0
        scale = np.abs(self.vals).max() if self.vals.size else 1.
        for i in range(self.n):
            alts = self.groups(i)
            res = []
            for v in alts:
                m, s = self.stats(v, stat, mask_singletons)
                res.append((m, s))
            m, s = res[0]
            g = float(got_mean[i])
            gs = None if got_std is None else float(got_std[i])
            if self.same(g, m, rtol, scale) and \
                    (gs is None or self.same(gs, s, rtol, scale)):
                filled += np.isfinite(g)
                continue
            if len(alts) > 1:
                if any(self.same(g, m2, rtol, scale) and
                       (gs is None or self.same(gs, s2, rtol, scale))
                       for m2, s2 in res[1:]):
                    continue
                if self.reachable(i, g, stat, mask_singletons, scale):
                    # some of the on-edge samples fell either side
                    continue
            raise Violation("%s: bin %d [%.6g, %.6g): got %r (std %r), "
                            "expected %r (std %r) from %d samples" % (
                                what, i, self.edges[i], self.edges[i + 1], g,
                                gs, m, s, len(alts[0])))
        return filled

    def reachable(self, i, g, stat, mask_singletons, scale):
        """Can a subset of the on-edge samples give the mean g?"""
        inside, both = self.groups(i)[1], self.groups(i)[-1]
        lo, hi = self.edges[i], self.edges[i + 1]
        eps = 1e-9 * max(abs(self.edges[-1]), 1e-300)
        edge = np.sort(self.vals[(np.abs(self.dist - lo) <= eps) |
                                 (np.abs(self.dist - hi) <= eps)])
        if np.isnan(g):
            return len(inside) <= (1 if mask_singletons else 0)
        cands = [float(stat(np.r_[inside, part]))
                 for k in range(len(edge) + 1)
                 for part in (edge[:k], edge[k:])
                 if len(inside) + len(part) > 0]
        return bool(cands) and min(cands) - 1e-9 * scale <= g <= \
            max(cands) + 1e-9 * scale

    @staticmethod
    def same(g, w, rtol, scale):
        if np.isnan(g) or np.isnan(w):
            return bool(np.isnan(g) and np.isnan(w))
        return abs(g - w) <= rtol * abs(w) + 1e-11 * scale

    @staticmethod
    def stats(v, stat, mask_singletons):
        n = len(v)
        if n == 0:
            return np.nan, np.nan
        if n == 1:
            if mask_singletons:
                return np.nan, np.nan
            return float(stat(v)), np.nan
        sd = np.sqrt(((v - v.mean()) ** 2).sum() / (n - 1.))
        corr = t_dist.ppf(1 - 0.15 / 2., n - 1) / np.sqrt(n)
        if corr > 1:
            sd = sd * corr
        return float(stat(v)), float(sd)


def radial_edges(shape, logspacing=False, binsize=1.0, nbins=None,
                 min_bin=None, max_bin=None, freqs=True):
    if nbins is None:
        y = np.arange(shape[0]) - shape[0] // 2
        x = np.arange(shape[1]) - shape[1] // 2
        rmax = np.hypot(np.abs(y).max(), np.abs(x).max())
        nbins = int(np.round(rmax / binsize) + 1)
    if max_bin is None:
        if freqs:
            max_bin = 0.5
        else:
            y = np.arange(shape[0]) - shape[0] // 2
            x = np.arange(shape[1]) - shape[1] // 2
            max_bin = np.hypot(np.abs(y).max(), np.abs(x).max())
    if min_bin is None:
        min_bin = 1. / min(shape) if freqs else 0.5
    if logspacing:
        return 10 ** np.linspace(np.log10(min_bin), np.log10(max_bin),
                                 nbins + 1)
    return np.linspace(min_bin, max_bin, nbins + 1)


# ------------------------------------------------------------- apodization

def window(shape, kind, alpha, beta):
    """Radial split-cosine-bell windows on the pixel-centre radius."""
    if kind == "hanning":
        alpha, beta = 1., 0.
    elif kind == "tukey":
        beta = 1. - alpha
    elif kind == "cosinebell":
        beta = 0.
    ny, nx = shape
    out = np.empty(shape)
    half = (min(shape) - 1.) / 2.
    r_in = beta * half
    r_tap = int(np.floor(alpha * half))
    for i in range(ny):
        for j in range(nx):
            r = np.hypot(i - (ny - 1) / 2., j - (nx - 1) / 2.)
            if r < r_in:
                out[i, j] = 1.
            elif r > r_in + r_tap:
                out[i, j] = 0.
            elif r_tap == 0:
                out[i, j] = 1.
            else:
                out[i, j] = 0.5 * (1 + np.cos(np.pi * (r - r_in) / r_tap))
    return out


# ------------------------------------------------------------ linear fits

def leverage(x, w=None):
    """Largest leverage of a (weighted) line fit; HC3 errors divide by one
    minus it and are left to rounding when it is one."""
    sw = np.ones_like(x) if w is None else np.sqrt(w)
    Q = np.linalg.qr(np.vstack([sw, (x - x.mean()) * sw]).T)[0]
    return (Q ** 2).sum(1).max()


def ols(x, y, w=None):
    """(intercept, slope) of (weighted) least squares, and HC3 errors."""
    X = np.vstack([np.ones_like(x), x]).T
    if w is None:
        w = np.ones_like(x)
    sw = np.sqrt(w)
    A, b = X * sw[:, None], y * sw
    XtX = np.linalg.inv(A.T.dot(A))
    beta = XtX.dot(A.T.dot(b))
    e = b - A.dot(beta)
    h = np.einsum("ij,jk,ik->i", A, XtX, A)
    u = e / (1 - h)
    cov = XtX.dot((A * u[:, None] ** 2).T.dot(A)).dot(XtX)
    return beta, np.sqrt(np.diag(cov))
