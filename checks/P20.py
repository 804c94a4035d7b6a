"""Probability distribution functions."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from vlib.core import facet
from vlib import gen
from vlib.gen import close, require, raises

from turbustat.statistics import PDF, PDF_Distance

shapes = st.one_of(st.integers(12, 400).map(lambda n: [n]),
                   gen.shapes2(4, 20), gen.shapes3(3, 6, 3, 8))
arrays = gen.fields(shapes, nan=(0, 0, 0.1), dtypes=("f8", "f8", "f4"))
NORMS = [None, None, "standardize", "center", "normalize",
         "normalize_by_mean"]


def sample(a, lim, w, norm):
    """Values the distribution is made of"""
    x = np.asarray(a, dtype=float).ravel()
    ok = np.isfinite(x) & (x > lim)
    x = x[ok]
    if w is not None:
        v = np.asarray(w, dtype=float).ravel()[ok]
        good = np.isfinite(v)
        x = x[good] * v[good]
    if norm == "standardize":
        x = (x - x.mean()) / np.sqrt(((x - x.mean()) ** 2).mean())
    elif norm == "center":
        x = x - x.mean()
    elif norm == "normalize":
        x = (x - x.min()) / (x.max() - x.min())
    elif norm == "normalize_by_mean":
        x = x / x.mean()
    return x


def density(x, edges):
    """(density, ambiguous) from the definition"""
    n = np.zeros(len(edges) - 1)
    amb = False
    tol = 1e-7 * max(np.ptp(edges), np.abs(edges).max())
    for i in range(len(n)):
        hi = x <= edges[i + 1] if i == len(n) - 1 else x < edges[i + 1]
        n[i] = ((x >= edges[i]) & hi).sum()
    for e in edges[1:-1]:
        amb |= bool((np.abs(x - e) < tol).any())
    return n, amb


@facet(st.fixed_dictionaries(dict(
    f=arrays, lim=st.sampled_from([None, None, 0., 0.2]),
    w=st.sampled_from([None, None, "good", "nan"]),
    norm=st.sampled_from(NORMS),
    bins=st.one_of(st.none(), st.integers(2, 30), st.just("edges"),
                   st.just("uneven")),
    where=st.sampled_from(["init", "make", "run"]), seed=gen.SEED)),
    quick=300, thorough=12000,
    rule="densities are counts per bin over the total and the width; the "
         "cumulative distribution counts values up to the bin centres")
def distribution(c):
    a = gen.build(c["f"])
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    w = None
    if c["w"]:
        w = (0.5 + rng.rand(*a.shape)).astype(a.dtype)
        if c["w"] == "nan":
            w[rng.rand(*a.shape) < 0.1] = np.nan
    lim = -np.inf if c["lim"] is None else c["lim"] * c["f"]["scale"]
    x0 = sample(a, lim, w, None)
    if x0.size < 6 or np.ptp(x0) == 0:
        return False
    if c["norm"] == "normalize_by_mean" and abs(x0.mean()) < 0.05 * x0.std():
        return False
    x = sample(a, lim, w, c["norm"])
    tol = 2e-5 if c["f"]["dtype"] == "f4" else 1e-9
    if c["f"]["dtype"] == "f4" and np.abs(x0).max() > 20 * np.ptp(x0):
        return False
    if c["bins"] in ("edges", "uneven"):
        edges = np.linspace(x.min() - 0.013 * np.ptp(x), x.max()
                            + 0.0117 * np.ptp(x), 9)
        if c["bins"] == "uneven":
            edges = np.sort(np.r_[edges[[0, -1]], edges[0] + np.ptp(edges)
                                  * rng.uniform(0.02, 0.98, 6)])
        bins = edges
        if c["seed"] % 2:
            bins = list(edges)
    else:
        bins = c["bins"]
        nb = bins or int(round(np.sqrt(x.size)))
        edges = np.linspace(x.min(), x.max(), nb + 1)
    kept, kw_keep = a.copy(), None if w is None else w.copy()
    kw = dict(weights=w, normalization_type=c["norm"])
    if c["lim"] is not None:
        kw["min_val"] = lim
    p = PDF(a, bins=bins if c["where"] == "init" else None, **kw)
    close(np.sort(p.data), np.sort(x), "values", rtol=tol)

    def check(p, tag=""):
        n, amb = density(x, edges)
        wd = np.diff(edges)
        close(p.bins, 0.5 * (edges[1:] + edges[:-1]), "bin centres" + tag,
              rtol=10 * tol, scale=np.abs(edges).max())
        if not amb and tol < 1e-6:
            close(p.pdf, n / n.sum() / wd, "density" + tag, rtol=1e-7)
        close((p.pdf * wd).sum(), 1., "total probability" + tag,
              rtol=100 * tol)
        mid = np.asarray(p.bins)
        if not (np.abs(x[:, None] - mid).min() < 10 * tol
                * np.abs(edges).max()):
            close(p.ecdf, [(x <= m).mean() for m in mid],
                  "cumulative distribution" + tag, rtol=1e-9)
        require((np.diff(p.ecdf) >= 0).all() and p.ecdf.min() >= 0
                and p.ecdf.max() <= 1, "cumulative distribution" + tag)

    if c["where"] == "run":
        p.run(bins=bins, do_fit=False)
    else:
        if c["where"] == "make":
            p.make_pdf(bins=bins)
        p.make_ecdf()
    check(p)
    if tol < 1e-6:
        fresh = PDF(a, bins=bins, **kw)
        t = x.mean() + 1e-7 * np.ptp(x)
        if not (np.abs(x - t) < 1e-8 * np.ptp(x)).any():
            close(fresh.find_percentile(t), 100. * (x <= t).mean(),
                  "percentile before anything is made", rtol=1e-9)
    p.make_pdf()
    p.make_ecdf()
    check(p, " made again")
    p.run(do_fit=False)
    check(p, " run again")
    if tol < 1e-6:
        v = np.sort(x)[[0, x.size // 3, x.size - 1]]
        q = v + 1e-7 * np.ptp(x)
        if not (np.abs(np.subtract.outer(x, q)) < 1e-8 * np.ptp(x)).any():
            close(p.find_percentile(q), [100. * (x <= t).mean() for t in q],
                  "percentile of a value", rtol=1e-9)
        xs = np.sort(x)
        pc = np.array([0., 13., 50., 77.5, 100.])
        pos = pc / 100. * (x.size - 1)
        lo = np.floor(pos).astype(int)
        hi = np.minimum(lo + 1, x.size - 1)
        close(p.find_at_percentile(pc), xs[lo] + (pos - lo)
              * (xs[hi] - xs[lo]), "value at a percentile", rtol=1e-8)
    raises(ValueError, lambda: p.find_at_percentile(101.), "percentile 101")
    raises(ValueError, lambda: p.find_at_percentile(-0.5), "percentile -0.5")
    close(a, kept, "input", rtol=0)
    if w is not None:
        close(w, kw_keep, "input weights", rtol=0)
    return x.size > 20


@facet(st.fixed_dictionaries(dict(
    n=st.integers(60, 400), s=st.floats(0.15, 1.2), scale=st.floats(0.2, 5),
    loc=st.sampled_from([0., 0., -0.4]), seed=gen.SEED,
    model=st.sampled_from(["lognorm", "lognorm", "norm", "expon", "gamma"]),
    floc=st.sampled_from([True, True, True, False]),
    fscale=st.sampled_from([False, False, True]),
    how=st.sampled_from(["run", "fit"]))),
    quick=100, thorough=4000,
    rule="maximum likelihood: closed forms where they exist, no better "
         "likelihood nearby otherwise; asymptotic errors")
def fits(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    m = getattr(stats, c["model"])
    floc, fscale = c["floc"], c["fscale"]
    nsh = 0 if m.shapes is None else 1
    if nsh == 0 and floc and fscale:
        return False
    if not floc and c["model"] != "norm":
        # the likelihood of a free lower edge is not regular
        return False
    x = c["scale"] * np.exp(c["s"] * rng.normal(size=c["n"]))
    loc = c["loc"]
    p = PDF(x)
    kw = dict(model=m, floc=floc, fscale=fscale)
    if floc:
        kw["loc"] = loc
    if fscale:
        kw["scale"] = c["scale"]
    if c["how"] == "run":
        p.run(**kw)
    else:
        p.fit_pdf(**kw)
    par = np.array(p.model_params, dtype=float)
    n = nsh + (not floc) + (not fscale)
    require(par.shape == (n,), "%s parameters, expected %s" % (par.size, n))
    err = np.array(p.model_stderrs)
    require(err.shape == (n,), "one error per parameter")

    def unpack(q):
        q = list(q)
        sc = c["scale"] if fscale else q.pop()
        lc = loc if floc else q.pop()
        return q, lc, sc

    def ll(q):
        sh, lc, sc = unpack(q)
        if sc <= 0 or (sh and sh[0] <= 0):
            return -np.inf
        return m.logpdf(x, *sh, loc=lc, scale=sc).sum()

    best = ll(par)
    for i in range(n):
        for d in (1.02, 0.98):
            q = par.copy()
            q[i] = q[i] * d + (1e-3 if d > 1 else -1e-3)
            require(best >= ll(q) - 1e-6 * abs(best) - 1e-6,
                    "a likelier solution is near %s: %s" % (par, q))
    lx = np.log(x - loc) if c["model"] == "lognorm" else None
    want = None
    if c["model"] == "lognorm" and floc:
        if fscale:
            s = np.sqrt(((lx - np.log(c["scale"])) ** 2).mean())
            want, we = [s], [s / np.sqrt(2. * x.size)]
        else:
            s = lx.std()
            want = [s, np.exp(lx.mean())]
            we = [s / np.sqrt(2. * x.size), want[1] * s / np.sqrt(x.size)]
    elif c["model"] == "norm" and not floc:
        if fscale:
            want, we = [x.mean()], [c["scale"] / np.sqrt(x.size)]
        else:
            want = [x.mean(), x.std()]
            we = [x.std() / np.sqrt(x.size), x.std() / np.sqrt(2. * x.size)]
    elif c["model"] == "norm":
        s = np.sqrt(((x - loc) ** 2).mean())
        want, we = [s], [s / np.sqrt(2. * x.size)]
    elif c["model"] == "expon":
        s = (x - loc).mean()
        want, we = [s], [s / np.sqrt(x.size)]
    if want is not None:
        close(par / np.array(want), np.ones(n), "parameters", rtol=2e-3)
        if np.isfinite(err).all():
            close(err / np.array(we), np.ones(n), "errors", rtol=0.05)
    raises(ValueError, lambda: p.fit_pdf(fit_type="ols"), "unknown fit type")
    return n > 1


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(6, 20), nan=(0, 0.1)),
    g=gen.fields(gen.shapes2(6, 20), nan=(0, 0.1)),
    norm=st.sampled_from(["standardize", "center", "normalize", None]),
    nbins=st.one_of(st.none(), st.integers(3, 25)),
    lims=st.booleans(), clip=st.sampled_from([None, None, 0.1]),
    stat=st.sampled_from(["all", "hellinger", "ks"]))),
    quick=150, thorough=5000,
    rule="Hellinger distance over the common bins and the KS statistic "
         "between the two samples")
def distances(c):
    a, b = gen.build(c["f"]), gen.build(c["g"])
    l1, l2 = -np.inf, -np.inf
    if c["lims"]:
        l1, l2 = np.nanpercentile(a, 10.3), np.nanpercentile(b, 20.7)
    x, y = (sample(v, lv, None, None) for v, lv in ((a, l1), (b, l2)))
    if min(x.size, y.size) < 10 or not np.ptp(x) or not np.ptp(y):
        return False
    x, y = (sample(v, lv, None, c["norm"]) for v, lv in ((a, l1), (b, l2)))
    lo, hi = min(x.min(), y.min()), max(x.max(), y.max())
    kw = {}
    if c["clip"]:
        r = hi - lo
        lo, hi = lo + c["clip"] * r, hi - c["clip"] * r
        kw.update(bin_min=lo, bin_max=hi)
    nb = c["nbins"] or int(np.floor(np.sqrt((x.size + y.size) / 2.)))
    edges = np.linspace(lo, hi, nb)
    kept = a.copy(), b.copy()
    stat = "".join(list(c["stat"]))       # equal, not identical
    d = PDF_Distance(a, b, min_val1=l1, min_val2=l2, do_fit=False,
                     normalization_type=c["norm"], nbins=c["nbins"], **kw)
    d.distance_metric(statistic=stat)
    close(a, kept[0], "input", rtol=0)
    close(b, kept[1], "input", rtol=0)
    close(d.bins, edges, "common bins", rtol=1e-8)
    close(d.bin_centers, 0.5 * (edges[1:] + edges[:-1]), "bin centres",
          rtol=1e-8, scale=np.abs(edges).max())
    n1, am1 = density(x, edges)
    n2, am2 = density(y, edges)
    same = c["f"] == c["g"]
    swap = PDF_Distance(b, a, min_val1=l2, min_val2=l1, do_fit=False,
                        normalization_type=c["norm"], nbins=c["nbins"],
                        **kw)
    swap.distance_metric(statistic=stat)
    if c["stat"] != "ks" and n1.sum() and n2.sum():
        if not (am1 or am2):
            h = np.sqrt(((np.sqrt(n1 / n1.sum())
                          - np.sqrt(n2 / n2.sum())) ** 2).sum() / 2.)
            close(d.hellinger_distance, h, "Hellinger distance", rtol=1e-7,
                  atol=1e-9)
        require(-1e-12 <= d.hellinger_distance <= 1 + 1e-9,
                "Hellinger distance outside [0, 1]")
        close(swap.hellinger_distance, d.hellinger_distance,
              "exchanged Hellinger distance", rtol=1e-9, atol=1e-12)
    if c["stat"] != "hellinger":
        allv = np.sort(np.r_[x, y])
        gaps = np.diff(allv)
        eps = 1e-9 * max(np.abs(allv).max(), 1e-300)
        if not ((gaps > 0) & (gaps < eps)).any():
            f1 = np.searchsorted(np.sort(x), allv, side="right") / x.size
            f2 = np.searchsorted(np.sort(y), allv, side="right") / y.size
            if c["norm"] is None:
                close(d.ks_distance, np.abs(f1 - f2).max(), "KS statistic",
                      rtol=1e-9)
            else:
                require(abs(d.ks_distance - np.abs(f1 - f2).max())
                        < 1e-9 + 4. / min(x.size, y.size), "KS statistic")
        close(swap.ks_distance, d.ks_distance, "exchanged KS statistic",
              rtol=1e-9)
        require(0 <= d.ks_pval <= 1, "probability outside [0, 1]")
    z = PDF_Distance(a, a, min_val1=l1, min_val2=l1, do_fit=False,
                     normalization_type=c["norm"], nbins=c["nbins"])
    z.distance_metric(statistic=stat)
    if c["stat"] != "ks":
        close(z.hellinger_distance, 0., "distance to itself", rtol=0,
              atol=1e-12)
    if c["stat"] != "hellinger":
        close(z.ks_distance, 0., "distance to itself", rtol=0, atol=1e-12)
    raises(TypeError, lambda: d.distance_metric(statistic="ad"),
           "unknown statistic")
    raises(Exception, lambda: d.distance_metric(statistic="lognormal"),
           "lognormal distance without fits")
    return not same and n1.sum() > 0 and n2.sum() > 0


@facet(st.fixed_dictionaries(dict(
    n=st.tuples(st.integers(50, 300), st.integers(50, 300)).map(list),
    s=st.tuples(st.floats(0.2, 1.), st.floats(0.2, 1.)).map(list),
    norm=st.sampled_from([None, "normalize_by_mean"]), seed=gen.SEED)),
    quick=30, thorough=1200,
    rule="difference of the fitted widths over the combined error")
def lognormal_distance(c):
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    a, b = (np.exp(s * rng.normal(size=n)) for n, s in zip(c["n"], c["s"]))
    d = PDF_Distance(a, b, normalization_type=c["norm"])
    d.distance_metric(statistic="".join(["log", "normal"]))
    s = [np.log(v).std() for v in (a, b)]
    e = [v / np.sqrt(2. * n) for v, n in zip(s, c["n"])]
    want = abs(s[0] - s[1]) / np.hypot(*e)
    if not np.isfinite(d.lognormal_distance):
        return False
    require(abs(d.lognormal_distance - want) < 0.06 * want + 0.02,
            "lognormal distance %r, expected %r" % (d.lognormal_distance,
                                                    want))
    for norm in ("standardize", "center"):
        raises(Exception, lambda: PDF_Distance(a, b,
                                               normalization_type=norm),
               "lognormal fits of centred data")
    return want > 0.5
