"""Cramer statistic."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import Cramer_Distance
from turbustat.statistics.threeD_to_twoD import intensity_data

RULE = "the two cubes differ and the statistic is not zero"


def matrix(cube, p, noise, normalize, peak=None):
    """Brightest values of every channel, descending, zero padded"""
    n = int(round(p * cube.shape[1] * cube.shape[2]))
    rows = []
    for ch in cube:
        v = sorted([x for x in ch.ravel() if np.isfinite(x) and x > noise],
                   reverse=True)[:n]
        rows.append(v + [0.] * (n - len(v)))
    m = np.array(rows, dtype=float).reshape(len(rows), n) / (
        np.nanmax(cube) if peak is None else peak)
    if normalize:
        m = m / np.linalg.svd(m, compute_uv=False)[0]
    return m


def statistic(x, y):
    """(value, tolerance) of the two-sample statistic with kernel
    sqrt(distance) / 2"""
    s2 = max((x ** 2).sum(axis=1).max(), (y ** 2).sum(axis=1).max())
    eps = 1e-14 * s2 * 10

    def tot(a, b):
        d2 = ((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=-1)
        v = d2 ** 0.25
        # distances are computed from dot products: d2 is known to ~eps
        tol = (d2 + eps) ** 0.25 - np.maximum(d2 - eps, 0) ** 0.25
        return v.mean(), tol.mean()

    m, n = float(len(x)), float(len(y))
    xy, xx, yy = tot(x, y), tot(x, x), tot(y, y)
    f = m * n / (m + n)
    return f * (xy[0] - .5 * xx[0] - .5 * yy[0]), \
        f * (xy[1] + .5 * xx[1] + .5 * yy[1]) + 1e-12


cubes = gen.fields(gen.shapes3(2, 8, 4, 10), nan=(0, 0, 0.1),
                   kinds=["noise", "lognormal", "powerlaw", "blobs", "ints"])


@facet(st.fixed_dictionaries(dict(
    f=cubes, g=cubes, same=st.booleans(), p=st.sampled_from([None, .1, .5]),
    n1=st.sampled_from([None, 0.3, 1.2]), n2=st.sampled_from([None, 0.3]),
    norm=st.booleans(), seed=st.integers(0, 3000))), quick=200,
    thorough=8000,
    rule="data matrices from sorted channel values; statistic from all "
         "pairwise distances; mismatched sizes subsample the larger")
def reference(c):
    a = gen.build(c["f"])
    g = dict(c["g"])
    if c["same"]:
        g["shape"] = [g["shape"][0]] + c["f"]["shape"][1:]
    b = gen.build(g)
    ka, kb = a.copy(), b.copy()
    kw = {}
    n1 = -np.inf if c["n1"] is None else c["n1"] * np.nanstd(a)
    n2 = -np.inf if c["n2"] is None else c["n2"] * np.nanstd(b)
    if c["n1"] is not None:
        kw["noise_value1"] = n1
    if c["n2"] is not None:
        kw["noise_value2"] = n2
    p = 0.2 if c["p"] is None else c["p"]
    if any(int(round(p * x.shape[1] * x.shape[2])) < 1 or
           abs(np.nanmax(x)) < 1e-9 * np.nanmax(np.abs(x)) for x in (a, b)):
        return False
    ma, mb = matrix(a, p, n1, False), matrix(b, p, n2, False)
    if not ma.any() or not mb.any():
        return False        # nothing above the noise
    if c["norm"]:
        ma, mb = matrix(a, p, n1, True), matrix(b, p, n2, True)
    d = Cramer_Distance(a, b, **kw)
    if c["p"] is None and c["seed"] % 2:
        c = dict(c, seed=13024)
        d.distance_metric(normalize=c["norm"])
    else:
        d.format_data(normalize=c["norm"], seed=c["seed"], p=p)
        d.cramer_statistic()
    close(a, ka, "first cube", rtol=0)
    close(b, kb, "second cube", rtol=0)
    ga, gb = d.data_matrix1, d.data_matrix2
    k = min(ma.shape[1], mb.shape[1])
    for got, want in ((ga, ma), (gb, mb)):
        require(got.shape == (len(want), k), "matrix shape")
        if want.shape[1] == k:
            close(got, want, "data matrix", rtol=1e-10)
            continue
        for r, w in zip(got, want):
            # a sample without replacement
            w = list(w)
            for v in r:
                i = int(np.argmin(np.abs(np.array(w) - v)))
                require(abs(w[i] - v) < 1e-9 * max(1, abs(v)),
                        "value %r is not one of its channel's" % v)
                w.pop(i)
    val, tol = statistic(ga, gb)
    require(abs(d.distance - val) <= tol + 1e-9 * abs(val),
            "statistic %r, expected %r +- %r" % (d.distance, val, tol))
    require(d.distance >= -tol, "negative statistic")
    first = d.distance
    d.format_data(normalize=c["norm"], seed=c["seed"], p=p)
    close(d.data_matrix1, ga, "repeated sampling", rtol=0)
    close(d.data_matrix2, gb, "repeated sampling", rtol=0)
    d.cramer_statistic()
    require(d.distance == first, "statistic changed on repetition")
    big = (ga, ma) if ma.shape[1] > k else (gb, mb)
    if big[1].shape[1] > k + 1 and all(
            len(set(r)) >= k + 2 for r in big[1].round(12).tolist()):
        # another seed draws another sample: by chance, all of six seeds
        # agree with probability below 1e-3 per channel
        other = []
        for i in range(1, 7):
            d.format_data(normalize=c["norm"], seed=c["seed"] + i, p=p)
            other.append(d.data_matrix1 if big[0] is ga else
                         d.data_matrix2)
        require(any(not np.array_equal(x, big[0]) for x in other),
                "the sample does not depend on the seed")
    return val > tol


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes3(2, 8, 4, 9), nan=(0, .05),
                 kinds=["lognormal", "blobs", "powerlaw"]),
    g=gen.fields(gen.shapes3(2, 8, 4, 9), nan=(0, .05),
                 kinds=["lognormal", "blobs", "powerlaw"]),
    c=st.sampled_from([1e-3, 0.5, 40.]), seed=gen.SEED,
    norm=st.booleans())), quick=80, thorough=2500,
    rule="identity, symmetry, channel order, pixel order, brightness scale, "
         "global random state")
def relations(c):
    a = gen.build(c["f"])
    g = dict(c["g"])
    g["shape"] = [g["shape"][0]] + c["f"]["shape"][1:]
    b = gen.build(g)
    if any(np.nanmax(x) <= 1e-9 for x in (a, b)):
        return False
    rng = np.random.RandomState(c["seed"] % 2 ** 32)

    def D(x, y):
        state = np.random.get_state()[1].copy()
        d = Cramer_Distance(x, y)
        d.distance_metric(normalize=c["norm"])
        require((np.random.get_state()[1] == state).all(),
                "global random state changed")
        return d.distance, statistic(d.data_matrix1, d.data_matrix2)[1]

    v, t = D(a, b)
    t = 4 * t + 1e-9 * abs(v)
    i, ti = D(a, a.copy())
    require(abs(i) <= 2 * ti, "distance of a cube to itself: %r" % i)
    require(abs(D(b, a)[0] - v) <= t, "not symmetric")
    p = rng.permutation(a.shape[0])
    require(abs(D(a[p], b)[0] - v) <= t, "depends on channel order")
    q = rng.permutation(a.shape[1])
    require(abs(D(a[:, q][:, :, ::-1], b)[0] - v) <= t,
            "depends on pixel order")
    require(abs(D(a * c["c"], b)[0] - v) <= t,
            "depends on the brightness scale")
    # mismatched sizes: the larger is sampled, either way round
    small = a[:, :a.shape[1] - 1]
    if np.nanmax(small) > 1e-9:
        s1, s2 = D(small, b), D(b, small)
        require(abs(s1[0] - s2[0]) <= 4 * s1[1] + 1e-9 * abs(s1[0]),
                "not symmetric for mismatched sizes")
    return v > t


@facet(st.fixed_dictionaries(dict(
    shape=gen.shapes3(2, 6, 3, 9), seed=gen.SEED, norm=st.booleans(),
    frac=st.sampled_from([0.1, 0.3, 0.8]),
    fmt=st.sampled_from(["spectra", "spec" + "tra"]))), quick=60,
    thorough=2000, rule="'spectra' keeps the brightest spectra as columns")
def spectra(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a = rng.lognormal(size=tuple(c["shape"]))
    b = rng.lognormal(size=tuple(c["shape"]))
    npix = a.shape[1] * a.shape[2]
    k = max(1, int(c["frac"] * npix))
    d = Cramer_Distance(a, b)
    fmt = "".join(list(c["fmt"]))
    d.format_data(data_format=fmt, num_spec=k, normalize=c["norm"])
    for cube, got in ((a, d.data_matrix1), (b, d.data_matrix2)):
        flat = cube.reshape(cube.shape[0], -1)
        order = np.argsort(flat.sum(axis=0))[::-1][:k]
        want = flat[:, order]
        if c["norm"]:
            want = want / np.linalg.svd(want, compute_uv=False)[0]
        got = got[:, np.argsort(got[0])]
        want = want[:, np.argsort(want[0])]
        close(got, want, "brightest spectra", rtol=1e-10)
    raises(NameError, lambda: d.format_data(data_format="images"),
           "unknown data format")
    raises(Exception, lambda: d.format_data(data_format="spectra",
                                            num_spec=None), "no num_spec")
    return k < npix


@facet(st.fixed_dictionaries(dict(
    f=cubes, p=st.sampled_from([.05, .2, .5, 1.]), norm=st.booleans(),
    noise=st.sampled_from([None, 0.3, 1.2]))), quick=80, thorough=3000,
    rule="brightest values of each channel, with or without the division "
         "by the peak")
def brightest(c):
    a = gen.build(c["f"])
    if not np.nanmax(a) != 0:
        return False
    keep = a.copy()
    lim = -np.inf if c["noise"] is None else c["noise"]
    kw = {} if c["noise"] is None else dict(noise_lim=lim)
    got = intensity_data(a, p=c["p"], norm=c["norm"], **kw)
    close(got, matrix(a, c["p"], lim, False, None if c["norm"] else 1.),
          "brightest values", rtol=1e-12)
    close(a, keep, "input", rtol=0)
    return got.size > 0
