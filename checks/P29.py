"""Saving and loading results."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from vlib.core import facet
from vlib import gen, stats
from vlib.gen import close, require, raises


def arrays(x, seen, path=""):
    """All arrays reachable from an object"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            for k, v in enumerate(x.flat):
                yield from arrays(v, seen, "%s[%d]" % (path, k))
        else:
            yield path, np.asarray(x)
    elif isinstance(x, dict):
        for k, v in list(x.items()):
            yield from arrays(v, seen, "%s[%r]" % (path, k))
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            yield from arrays(v, seen, "%s[%d]" % (path, k))
    elif hasattr(x, "__dict__") and type(x).__module__.startswith(
            "turbustat"):
        for k, v in list(vars(x).items()):
            yield from arrays(v, seen, "%s.%s" % (path, k))


def holds(obj, data):
    """Where an object keeps the data (also with NaNs replaced)"""
    want = np.sort(data[np.isfinite(data)].ravel())
    for path, arr in arrays(obj, set()):
        if arr.dtype.kind != "f" or arr.size < want.size:
            continue
        if arr.ndim != data.ndim:
            continue            # results for several lags, scales...
        v = arr[np.isfinite(arr)].ravel()
        v = np.sort(v)
        if v.size == want.size and np.array_equal(v, want):
            return path
        if v.size == data.size:
            filled = np.sort(np.where(np.isfinite(data), data, 0.).ravel())
            if np.array_equal(v, filled):
                return path
    return None


CASE = dict(stat=st.sampled_from(stats.NAMES), opt=st.integers(0, 5),
            seed=gen.SEED, nan=st.sampled_from([0., 0.05]),
            keep=st.booleans(), dot=st.booleans(),
            name=st.sampled_from(["out", "a.b", "x y", "out.pkl2", "outpkl", "pkl"]),
            dist=st.booleans())


@facet(st.fixed_dictionaries(CASE), quick=400, thorough=6000,
       rule="saved and loaded objects have the same results; the data are in "
            "the file only when requested; the original can still be used")
def save(c):
    s = stats.STATS()[c["stat"]]
    opt = c["opt"] % len(s.opts)
    a, h = stats.data_for(s, c["seed"], c["nan"])
    kw = {}
    if c["dist"] and s.header and s.name not in ("StatMoments",
                                                 "Dendrogram", "SCF",
                                                 "VCS"):
        kw["distance"] = 250 * u.pc
    obj = s.new((a.copy(), h.copy()), opt=opt, **kw)
    state = np.random.get_state()
    np.random.seed(c["seed"] % 2 ** 32)
    try:
        s.run(obj, opt)
    finally:
        np.random.set_state(state)
    want = s.results(obj)
    cls = type(obj)
    tmp = tempfile.mkdtemp(prefix="vp_p29_")
    try:
        name = os.path.join(tmp, c["name"])
        if c["dot"]:
            name += ".pkl"
        keep = {} if not c["keep"] else dict(keep_data=True)
        obj.save_results(name, **keep)
        made = os.listdir(tmp)
        full = name if name.endswith(".pkl") else name + ".pkl"
        require(made == [os.path.basename(full)],
                "saving as %r made %r" % (name, made))
        size = os.path.getsize(full)
        back = cls.load_results(full)
        require(type(back) is cls, "loaded a %s" % type(back).__name__)
        stats.same(s.results(back), want, "loaded %s" % s.name)
        if kw:
            require(back.distance == obj.distance, "distance of the loaded")
        if s.header:
            require(back.header.tostring() == obj.header.tostring(),
                    "header of the loaded %s" % s.name)
        where = holds(back, a)
        if c["keep"]:
            require(where is not None, "keep_data=True lost the data of %s"
                    % s.name)
            again = s.run(back, opt) if s.name not in ("PCA",) else back
            stats.same_rounded(s.results(again), want,
                               "loaded %s run again" % s.name)
        else:
            require(where is None, "%s saved without its data still has "
                    "them in %s" % (s.name, where))
            obj.save_results(os.path.join(tmp, "kept"), keep_data=True)
            require(os.path.getsize(os.path.join(tmp, "kept.pkl")) >= size,
                    "file with data is smaller")
        # the original is untouched
        require(holds(obj, a) is not None, "saving dropped the data of the "
                "original %s" % s.name)
        stats.same(s.results(obj), want, "original %s" % s.name)
    finally:
        shutil.rmtree(tmp)
    return True


@facet(st.fixed_dictionaries(dict(
    seed=gen.SEED, opt=st.integers(0, 2), ndim=st.sampled_from([2, 3]),
    name=st.sampled_from(["d", "d.pkl"]))), quick=40, thorough=500,
    rule="Dendrogram_Stats.run(save_results=True) saves loadable results")
def dendro_run(c):
    from turbustat.statistics import Dendrogram_Stats
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    shape = rng.randint(7, 12, size=3) if c["ndim"] == 3 else \
        rng.randint(18, 26, size=2)
    a = stats.smooth(tuple(shape), c["seed"])
    h = (gen.header3 if c["ndim"] == 3 else gen.header2)(tuple(shape))
    d = stats.quiet(Dendrogram_Stats, (a, h),
                    min_deltas=np.linspace(0.05, 1.2, 8))
    tmp = tempfile.mkdtemp(prefix="vp_p29_")
    try:
        out = os.path.join(tmp, c["name"])
        stats.quiet(d.run, show_progress=False, save_results=True,
                    output_name=out, fit_kwargs=dict(size=3))
        require(os.listdir(tmp) == ["d.pkl"], "made %r" % os.listdir(tmp))
        back = Dendrogram_Stats.load_results(os.path.join(tmp, "d.pkl"))
        at = ("numfeatures", "values", "min_deltas")
        stats.same(stats.collect(back, at), stats.collect(d, at),
                   "saved by run")
        require(holds(back, a) is None, "run saved the data")
    finally:
        shutil.rmtree(tmp)
    return True


@facet(st.fixed_dictionaries(dict(
    stat=st.sampled_from(stats.NAMES), seed=gen.SEED,
    opts=st.lists(st.integers(0, 5), min_size=2, max_size=4))),
    quick=60, thorough=1000,
    rule="a history of runs, saves and loads: every file keeps the results "
         "at the time it was saved")
def history(c):
    s = stats.STATS()[c["stat"]]
    a, h = stats.data_for(s, c["seed"])
    first = c["opts"][0] % len(s.opts)
    obj = s.new((a.copy(), h.copy()), opt=first)
    tmp = tempfile.mkdtemp(prefix="vp_p29_")
    saved = []
    try:
        for k, o in enumerate(c["opts"]):
            o %= len(s.opts)
            s.run(obj, o)
            f = os.path.join(tmp, "f%d.pkl" % (k % 2 * k))
            obj.save_results(f, keep_data=bool(k % 2))
            saved = [x for x in saved if x[0] != f]
            saved.append((f, s.results(obj)))
            if k % 2:
                obj = type(obj).load_results(f)
        for f, want in saved:
            stats.same(s.results(type(obj).load_results(f)), want,
                       "%s saved in a history" % s.name)
    finally:
        shutil.rmtree(tmp)
    return True
