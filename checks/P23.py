"""Dendrogram statistics."""
import os
import shutil
import tempfile
import warnings
import numpy as np
from hypothesis import strategies as st
from astrodendro import Dendrogram, periodic_neighbours
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises
from astropy.io import fits

from turbustat.statistics import Dendrogram_Stats, Dendrogram_Distance

KIND = ["noise", "lognormal", "powerlaw", "blobs"]
imgs2 = gen.fields(gen.shapes2(8, 22), kinds=KIND, nan=(0, 0, 0, 0.1),
                   offsets=(0., 1.), scales=(1., 1., 20.))
imgs3 = gen.fields(gen.shapes3(3, 7, 4, 9), kinds=KIND, nan=(0, 0, 0.1),
                   offsets=(0., 1.), scales=(1.,))


def hdu(a):
    h = gen.header2(a.shape) if a.ndim == 2 else gen.header3(a.shape)
    return fits.PrimaryHDU(a, h)


def structures(a, deltas, params, periodic):
    """Sorted peak values of all structures at every minimum height"""
    nb = periodic_neighbours([a.ndim - 2, a.ndim - 1]) if periodic else None
    d = Dendrogram.compute(a, min_delta=deltas[0],
                           min_value=params.get("min_value", "min"),
                           min_npix=params.get("min_npix", 0),
                           neighbours=nb)
    out = [np.sort([s.vmax for s in d.all_structures])]
    for x in deltas[1:]:
        d.prune(min_delta=x)
        out.append(np.sort([s.vmax for s in d.all_structures]))
    return out


def heights(a, n, lo, hi, seed):
    sd = np.nanstd(a)
    rng = np.random.RandomState(seed % 2 ** 32)
    x = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(hi), n))
    x[1:] += 1e-6 * np.arange(1, n)
    return x * sd


PARAMS = st.fixed_dictionaries(dict(
    min_value=st.sampled_from([None, "low", "mid"]),
    min_npix=st.sampled_from([None, 1, 3, 6]),
    min_delta=st.sampled_from([None, 0.2])))


def params_of(p, a):
    out = {}
    if p["min_value"]:
        out["min_value"] = float(np.nanpercentile(
            a, 3 if p["min_value"] == "low" else 45)) + 1e-5
    if p["min_npix"]:
        out["min_npix"] = p["min_npix"]
    if p["min_delta"]:
        out["min_delta"] = p["min_delta"] * float(np.nanstd(a))
    return out


@facet(st.fixed_dictionaries(dict(
    f=st.one_of(imgs2, imgs2, imgs3), p=PARAMS, n=st.integers(1, 8),
    hi=st.sampled_from([0.8, 2.]), periodic=st.booleans(), seed=gen.SEED,
    form=st.sampled_from(["array", "list", "auto", "none"]),
    obj=st.booleans(), prog=st.booleans())), quick=240, thorough=5000,
    rule="counts and peak values of all structures equal a dendrogram built "
         "and pruned with astrodendro; counts never rise with min_delta")
def counts(c):
    a = gen.build(c["f"])
    keep = a.copy()
    params = params_of(c["p"], a)
    form = c["form"]
    deltas = heights(a, c["n"], 0.02, c["hi"], c["seed"])
    if form == "none":
        if "min_delta" not in params:
            params["min_delta"] = float(deltas[0])
        deltas = np.array([params["min_delta"]])
        s = Dendrogram_Stats(hdu(a), min_deltas=None,
                             dendro_params=dict(params))
    elif form == "auto":
        s = Dendrogram_Stats(hdu(a), dendro_params=dict(params),
                             num_deltas=c["n"])
        lo = params.get("min_value", np.nanmin(a))
        want = np.linspace(params.get("min_delta", 1e-5),
                           np.nanmax(a) - lo, c["n"] + 1)[:-1]
        close(s.min_deltas, want, "automatic min_deltas", rtol=1e-9)
        deltas = np.asarray(s.min_deltas)
    else:
        s = Dendrogram_Stats(hdu(a),
                             min_deltas=deltas if form == "array"
                             else [float(x) for x in deltas],
                             dendro_params=dict(params))
    close(s.min_deltas, deltas, "min_deltas", rtol=0, atol=0)
    kw = {}
    if c["obj"] and not c["periodic"]:
        kw["dendro_obj"] = Dendrogram.compute(
            a.copy(), min_delta=deltas[0],
            min_value=params.get("min_value", "min"),
            min_npix=params.get("min_npix", 0))
    s.compute_dendro(periodic_bounds=c["periodic"], **kw)
    want = structures(a.copy(), deltas, params, c["periodic"])
    nums = np.array([len(w) for w in want])
    require(np.array_equal(np.asarray(s.numfeatures), nums),
            "numfeatures %s expected %s" % (s.numfeatures, nums))
    require(len(s.values) == len(want), "one list of values per min_delta")
    for i, w in enumerate(want):
        close(np.sort(s.values[i]), w, "peak values %d" % i, rtol=1e-12)
    require((np.diff(s.numfeatures) <= 0).all(), "numfeatures increases")
    close(a, keep, "the data", rtol=0)
    return nums[0] > 2


@facet(st.fixed_dictionaries(dict(
    f=st.one_of(gen.fields(gen.shapes2(8, 18), kinds=["noise", "lognormal",
                                                      "powerlaw"],
                           nan=(0,)),
                gen.fields(gen.shapes3(3, 6, 5, 8), kinds=["noise"],
                           nan=(0,))),
    n=st.integers(2, 6), npix=st.integers(0, 4), dy=st.integers(0, 30),
    dx=st.integers(0, 30), k=st.sampled_from([0.5, 4.]),
    b=st.sampled_from([0., 2.]), seed=gen.SEED)), quick=120, thorough=3000,
    rule="rolling periodic data, flipping, transposing, scaling with min_"
         "delta and adding constants leave the counts unchanged")
def invariances(c):
    a = gen.build(c["f"])
    deltas = heights(a, c["n"], 0.05, 2., c["seed"])
    lo = float(np.percentile(a, 20)) + 1e-7

    def nums(x, per, k=1., b=0.):
        s = Dendrogram_Stats(hdu(np.ascontiguousarray(x)),
                             min_deltas=k * deltas, dendro_params=dict(
                                 min_value=k * lo + b, min_npix=c["npix"]))
        s.compute_dendro(periodic_bounds=per)
        return s.numfeatures

    def same(x, y, what):
        require(np.array_equal(x, y), "%s: %s vs %s" % (what, x, y))
    p, q = nums(a, True), nums(a, False)
    same(nums(np.roll(a, (c["dy"], c["dx"]), axis=(-2, -1)), True), p,
         "rolled")
    for per, w in ((True, p), (False, q)):
        same(nums(a[..., ::-1, :], per), w, "flipped")
        same(nums(a.swapaxes(-1, -2), per), w, "transposed")
    same(nums(c["k"] * a + c["b"], False, c["k"], c["b"]), q, "scaled")
    return p[0] > 2


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(16, 30), kinds=["noise", "lognormal",
                                             "powerlaw"], nan=(0, 0, 0.05),
                 offsets=(0.,), scales=(1., 10.)),
    n=st.integers(8, 20), size=st.sampled_from([None, 3, 5, 7]),
    seed=gen.SEED, mn=st.sampled_from([None, 4, 30]),
    bins=st.sampled_from([None, 4, 9, "edges"]),
    how=st.sampled_from(["run", "steps"]))), quick=140, thorough=3000,
    rule="tail slope and error are least squares with HC3 errors over the "
         "points from the break on; histograms of the peak values")
def tail(c):
    a = gen.build(c["f"])
    deltas = heights(a, c["n"], 0.05, 2.5, c["seed"])
    params = dict(min_value=float(np.nanpercentile(a, 10)) + 1e-7,
                  min_npix=1)
    s = Dendrogram_Stats(hdu(a), min_deltas=deltas, dendro_params=params)
    hkw = {}
    if c["mn"]:
        hkw["min_number"] = c["mn"]
    edges = np.linspace(np.nanmin(a), np.nanmax(a), 7)
    if c["bins"]:
        hkw["bins"] = edges if c["bins"] == "edges" else c["bins"]
    fkw = {} if c["size"] is None else dict(size=c["size"])
    want = structures(a.copy(), deltas, params, False)
    n = np.array([len(w) for w in want])
    size = c["size"] or 5
    h = (size - 1) // 2
    m = n[n > 1].astype(float)
    x = deltas[n > 1]
    if len(m) < size:
        return False
    pos = []
    # Documented: a window of `size` points; the known finding leaves out
    # its last point
    for extra in (1, 0):
        sd = np.array([m[i - h:i + h + extra].std()
                       for i in range(h, len(m) - h)])
        best = np.flatnonzero(sd >= sd.max() - 1e-12 * (1 + sd.max())) + h
        pos.append(set(best.tolist()))
    if any(len(x[p:]) < 2 for p in pos[0] | pos[1]):
        return False
    if c["how"] == "run":
        s.run(show_progress=False, fit_kwargs=fkw, hist_kwargs=dict(hkw))
    else:
        s.compute_dendro()
        s.fit_numfeat(**fkw)
        s.make_hists(**hkw)
    fx, fy = s.fitvals
    start = len(x) - len(fx)
    require(start in pos[0] | pos[1], "fit starts at point %s, expected %s" %
            (start, sorted(pos[0] | pos[1])))
    close(fx, np.log10(x[start:]), "fitted log min_delta", rtol=1e-10)
    close(fy, np.log10(m[start:]), "fitted log counts", rtol=1e-10,
          atol=1e-12)
    close(s.break_pos, x[start], "break", rtol=1e-12)
    if len(fx) > 2 and np.ptp(fx) > 1e-3:
        (_, slope), (_, err) = ref.ols(np.asarray(fx), np.asarray(fy))
        close(s.tail_slope, slope, "tail slope", rtol=1e-6, atol=1e-6)
        # HC3 divides by 1 - leverage
        d = (fx - fx.mean()) ** 2
        if (1 - 1. / len(fx) - d / d.sum()).min() > 1e-4:
            close(s.tail_slope_err, err, "tail slope error", rtol=1e-5,
                  atol=1e-6)
    mn = c["mn"] or 10
    require(len(s.hists) == len(want), "one histogram per min_delta")
    some = 0
    for w, (cen, hist) in zip(want, s.hists):
        if len(w) < mn:
            require(len(cen) == 0 and len(hist) == 0,
                    "a histogram of too few structures")
            continue
        some += 1
        b = hkw.get("bins", int(np.sqrt(len(w))))
        hw, e = np.histogram(w, bins=b)
        close(cen, (e[1:] + e[:-1]) / 2, "histogram bins", rtol=1e-9)
        close(hist, hw, "histogram", rtol=0)
    return some > 0 and len(fx) > 2


def std_hist(v1, v2, nb):
    z1 = (v1 - v1.mean()) / v1.std()
    z2 = (v2 - v2.mean()) / v2.std()
    e = np.linspace(min(z1.min(), z2.min()), max(z1.max(), z2.max()), nb + 1)
    h1 = np.histogram(z1, bins=e)[0].astype(float)
    h2 = np.histogram(z2, bins=e)[0].astype(float)
    return h1 / h1.sum(), h2 / h2.sum()


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(16, 26), kinds=["noise", "lognormal"],
                 nan=(0, 0, 0.05), offsets=(0.,), scales=(1.,)),
    seed2=gen.SEED, n=st.integers(9, 15), nbins=st.sampled_from(
        ["best", 5, 8]), minf=st.sampled_from([10, 20, 40]),
    form=st.lists(st.sampled_from(["data", "fresh", "run", "other"]),
                  min_size=2, max_size=2),
    kw2=st.booleans(), plist=st.booleans(), seed=gen.SEED)), quick=80,
    thorough=1500,
    rule="both distances from the definition, symmetric, zero for equal "
         "data, the same whatever form the inputs have")
def distance(c):
    a = gen.build(c["f"])
    b = gen.build(dict(c["f"], seed=c["seed2"]))
    deltas = heights(a, c["n"], 0.05, 1.5, c["seed"])
    pa = dict(min_value=float(np.nanpercentile(a, 10)) + 1e-7, min_npix=1)
    pb = dict(min_value=float(np.nanpercentile(b, 10)) + 1e-7, min_npix=2)
    if not c["plist"]:
        pb = pa
    vs = [structures(a.copy(), deltas, pa, False),
          structures(b.copy(), deltas, pb, c["kw2"])]
    ns = [np.array([len(v) for v in w]) for w in vs]
    if any(len(np.flatnonzero(n > 1)) < 9 for n in ns):
        return False
    cut = min(np.flatnonzero(n > c["minf"]).max() if (n > c["minf"]).any()
              else -1 for n in ns)

    def stat(x, p, form, per):
        if form == "data":
            return hdu(x)
        s = Dendrogram_Stats(hdu(x), min_deltas=deltas if form != "other"
                             else deltas[:-2] * 1.1, dendro_params=dict(p))
        if form in ("run", "other"):
            s.run(show_progress=False, periodic_bounds=per)
        return s
    kw = dict(show_progress=False, make_hists=True)
    kw2 = dict(show_progress=False, periodic_bounds=True, verbose=False)
    k1, k2 = dict(kw), dict(kw2)

    def dist(x, y, params, f1, f2, kws):
        d = Dendrogram_Distance(
            stat(x, params[0], f1, kws[0].get("periodic_bounds", False)),
            stat(y, params[1], f2, (kws[1] or kws[0]).get(
                "periodic_bounds", False)),
            min_deltas=deltas, nbins=c["nbins"], min_features=c["minf"],
            dendro_params=[dict(p) for p in params], dendro_kwargs=kws[0],
            dendro2_kwargs=kws[1])
        d.distance_metric()
        return d
    try:
        d = dist(a, b, [pa, pb], c["form"][0], c["form"][1],
                 [k1, k2 if c["kw2"] else None])
    except ValueError as exc:
        if "few points" in str(exc) and "features" not in str(exc):
            return False
        # the known finding needs two usable heights
        require(cut < 1, "refused although both have the features: %s" % exc)
        return False
    require(cut >= 0, "accepted too few features")
    require(k1 == kw and k2 == kw2, "the keyword dictionaries were changed")
    s1, s2 = d.dendro1, d.dendro2
    for s, n in zip((s1, s2), ns):
        require(np.array_equal(s.numfeatures, n), "numfeatures")
    close(d.num_distance, abs(s1.tail_slope - s2.tail_slope) /
          np.hypot(s1.tail_slope_err, s2.tail_slope_err), "slope distance",
          rtol=1e-9)
    # Known finding: the last height with enough features is left out
    ok = []
    for stop in (cut + 1, cut):
        h = []
        for i in range(stop):
            nb = c["nbins"] if c["nbins"] != "best" else int(
                np.sqrt((ns[0][i] + ns[1][i]) / 2.))
            p, q = std_hist(vs[0][i], vs[1][i], nb)
            h.append(np.sqrt(0.5 * ((np.sqrt(p) - np.sqrt(q)) ** 2).sum()))
        ok.append(np.mean(h))
    got = d.histogram_distance
    require(any(abs(got - w) <= 1e-7 for w in ok),
            "histogram distance %r expected one of %r" % (got, ok))
    for hs, es in ((d.histograms1, d.mecdf1), (d.histograms2, d.mecdf2)):
        for x, y in zip(hs, es):
            g = np.isfinite(x)
            close(y[g], np.cumsum(x[g]) / x[g].sum(), "ECDF", rtol=1e-9)
    e = dist(b, a, [pb, pa], c["form"][1], c["form"][0],
             [dict(k2) if c["kw2"] else dict(k1), dict(k1)])
    close(e.num_distance, d.num_distance, "exchanged slope distance",
          rtol=1e-7)
    close(e.histogram_distance, got, "exchanged histogram distance",
          rtol=1e-7, atol=1e-9)
    z = dist(a, a, [pa, pa], c["form"][0], "data", [dict(k1), None])
    close(z.histogram_distance, 0., "histogram distance to itself",
          atol=1e-9)
    if s1.tail_slope_err > 0:
        close(z.num_distance, 0., "slope distance to itself", atol=1e-6)
    return c["form"][0] + "/" + c["form"][1]


@facet(st.fixed_dictionaries(dict(
    f=imgs2, bad=st.sampled_from(["decreasing", "equal", "word", "features",
                                  "single", "params"]))), quick=24,
    thorough=200, rule="unusable heights and parameters are refused")
def refused(c):
    a = gen.build(c["f"])
    x = hdu(a)
    sd = float(np.nanstd(a))
    p = dict(min_value=float(np.nanmin(a)), min_npix=1, min_delta=0.1 * sd)
    if c["bad"] == "decreasing":
        raises(ValueError, lambda: Dendrogram_Stats(
            x, min_deltas=np.array([0.1, 0.3, 0.2]) * sd, dendro_params=p),
            "decreasing heights")
    elif c["bad"] == "equal":
        raises(ValueError, lambda: Dendrogram_Stats(
            x, min_deltas=np.array([0.1, 0.3, 0.3]) * sd, dendro_params=p),
            "repeated heights")
    elif c["bad"] == "word":
        raises(ValueError, lambda: Dendrogram_Stats(
            x, min_deltas="many", dendro_params=p), "a word as heights")
    elif c["bad"] == "single":
        s = Dendrogram_Stats(x, min_deltas=None, dendro_params=p)
        s.compute_dendro()
        raises(ValueError, s.fit_numfeat, "a fit to one height")
    elif c["bad"] == "params":
        raises(TypeError, lambda: Dendrogram_Distance(
            x, x, min_deltas=np.array([0.1, 0.2]) * sd, dendro_params="p"),
            "dendro_params of the wrong type")
    else:
        y = hdu(gen.build(dict(c["f"], kind="noise", shape=[20, 20],
                               nan=0)))
        raises(ValueError, lambda: Dendrogram_Distance(
            y, y, min_deltas=np.linspace(0.05, 1, 12) *
            float(np.std(y.data)), dendro_params=dict(
                min_value=float(y.data.min()), min_npix=1),
            min_features=10 ** 5, dendro_kwargs=dict(show_progress=False)),
            "more features than there are")
    return c["bad"]


@facet(st.fixed_dictionaries(dict(
    f=st.one_of(imgs2, imgs3), p=PARAMS, n=st.integers(2, 6), seed=gen.SEED,
    periodic=st.booleans(), obj=st.booleans(), header=st.booleans(),
    name=st.sampled_from(["d", "cloud.v2"]))), quick=60, thorough=1500,
    rule="a saved dendrogram holds the data and parameters: loaded, it gives "
         "the same counts at the same and at other heights")
def saved(c):
    a = gen.build(c["f"])
    params = params_of(c["p"], a)
    deltas = heights(a, c["n"], 0.05, 1., c["seed"])
    h = hdu(a)
    s = Dendrogram_Stats(h, min_deltas=deltas, dendro_params=dict(params))
    kw = {}
    if c["obj"]:
        kw["dendro_obj"] = Dendrogram.compute(
            a.copy(), min_delta=deltas[0],
            min_value=params.get("min_value", "min"),
            min_npix=params.get("min_npix", 0))
    d = tempfile.mkdtemp()
    try:
        name = os.path.join(d, c["name"])
        raises(ValueError, lambda: s.compute_dendro(save_dendro=True),
               "saved without a name")
        s.compute_dendro(save_dendro=True, dendro_name=name,
                         periodic_bounds=c["periodic"], **kw)
        require(os.listdir(d) == [c["name"] + ".hdf5"],
                "files %r" % os.listdir(d))
        lk = dict(header=h.header.copy()) if c["header"] else {}
        t = Dendrogram_Stats.load_dendrogram(name + ".hdf5", deltas, **lk)
        one = Dendrogram_Stats.load_dendrogram(name + ".hdf5", **lk)
        more = Dendrogram_Stats.load_dendrogram(
            name + ".hdf5", min_deltas=deltas * 1.3)
    finally:
        shutil.rmtree(d)
    close(t.data, a, "loaded data", rtol=0)
    close(one.min_deltas, deltas[:1], "saved height", rtol=1e-12)
    per = c["periodic"] and not c["obj"]
    for x, dl in ((t, deltas), (one, deltas[:1]), (more, deltas * 1.3)):
        x.compute_dendro(periodic_bounds=c["periodic"])
        want = structures(a.copy(), dl, params, c["periodic"])
        require(np.array_equal(x.numfeatures, [len(w) for w in want]),
                "loaded: %s structures expected %s" % (
                    x.numfeatures, [len(w) for w in want]))
    want = structures(a.copy(), deltas, params, per)
    require(np.array_equal(s.numfeatures, [len(w) for w in want]),
            "%s structures, saved" % s.numfeatures)
    return len(want[0]) > 2


@facet(st.fixed_dictionaries(dict(
    f=gen.fields(gen.shapes2(30, 40), kinds=["noise", "lognormal"], nan=(0,),
                 offsets=(0.,), scales=(1.,)), seed2=gen.SEED,
    which=st.sampled_from(["deltas", "params", "both"]))), quick=12,
    thorough=400,
    rule="the default heights of the distance are 100 logarithmic steps from "
         "10^-2.5 to 10^0.5, and the default parameters those of "
         "Dendrogram_Stats")
def defaults(c):
    a = gen.build(c["f"])
    b = gen.build(dict(c["f"], seed=c["seed2"]))
    deltas = np.logspace(-2.5, 0.5, 100)
    kw, full = {}, dict(min_deltas=deltas, dendro_params=dict(
        min_npix=10, min_value=0.001))
    if c["which"] == "params":
        deltas = kw["min_deltas"] = full["min_deltas"] = np.logspace(
            -1.5, 0.3, 30)
    elif c["which"] == "deltas":
        full["dendro_params"] = dict(min_npix=2, min_value=float(a.mean()))
        kw["dendro_params"] = dict(full["dendro_params"])

    def run(k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = Dendrogram_Distance(hdu(a), hdu(b), min_features=3, **k)
            d.distance_metric()
        return d
    try:
        d = run(full)
    except ValueError as e:
        raises(ValueError, lambda: run(kw), str(e))
        return False
    e = run(kw)
    for x, img in ((e.dendro1, a), (e.dendro2, b)):
        close(x.min_deltas, deltas, "heights", rtol=1e-12)
        w = structures(img.copy(), deltas, full["dendro_params"], False)
        require(np.array_equal(x.numfeatures, [len(v) for v in w]),
                "structures with the defaults")
    close([e.num_distance, e.histogram_distance],
          [d.num_distance, d.histogram_distance], "distances", rtol=1e-10)
    return True
