"""Apodizing windows."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet
from vlib import gen, ref
from vlib.gen import close, require, raises

from turbustat.statistics.apodizing_kernels import (
    SplitCosineBellWindow, HanningWindow, TukeyWindow, CosineBellWindow)
from turbustat.statistics import PowerSpectrum, VCA

RULE = "the window is neither all zeros nor all ones"

kinds = st.sampled_from(["splitcosinebell", "hanning", "tukey", "cosinebell"])
frac = st.one_of(st.integers(0, 100), st.sampled_from([0, 0, 1, 2, 100])
                 ).map(lambda n: n / 100.)


def make(kind, alpha, beta):
    return {"splitcosinebell": lambda: SplitCosineBellWindow(alpha, beta),
            "hanning": HanningWindow,
            "tukey": lambda: TukeyWindow(alpha),
            "cosinebell": lambda: CosineBellWindow(alpha)}[kind]()


def params(kind, alpha, beta):
    return {"splitcosinebell": (alpha, beta), "hanning": (1., 0.),
            "tukey": (alpha, 1. - alpha), "cosinebell": (alpha, 0.)}[kind]


@facet(st.fixed_dictionaries(dict(
    kind=kinds, alpha=frac, beta=frac, shape=gen.shapes2(2, 40))),
    quick=600, thorough=30000,
    rule="closed form of the split cosine bell, pixel by pixel")
def closed_form(case):
    kind = case["kind"]
    shape = tuple(case["shape"])
    w = make(kind, case["alpha"], case["beta"])(shape)
    require(w.shape == shape, "window shape %s" % (w.shape,))
    require(np.isfinite(w).all() and w.min() >= -1e-12
            and w.max() <= 1 + 1e-12, "window leaves [0, 1]")
    alpha, beta = params(kind, case["alpha"], case["beta"])
    half = (min(shape) - 1.) / 2.
    y = np.arange(shape[0]) - (shape[0] - 1) / 2.
    x = np.arange(shape[1]) - (shape[1] - 1) / 2.
    r = np.hypot(y[:, None], x[None, :])
    r_in = beta * half
    lo, hi = int(np.floor(alpha * half - 1e-9)), \
        int(np.floor(alpha * half + 1e-9))
    ok = False
    err = None
    for tap in {max(lo, 0), max(hi, 0)}:
        want = np.where(r < r_in, 1., np.where(
            r > r_in + tap, 0., 0.5 * (1 + np.cos(np.pi * (r - r_in) /
                                                  tap)) if tap else 1.))
        sure = np.abs(r - r_in) > 1e-9 if tap == 0 else np.ones(shape, bool)
        if beta == 0:
            sure |= r == 0      # the central pixel is always kept
        try:
            close(w[sure], want[sure], "window", rtol=1e-9, atol=1e-9)
            ok = True
        except Exception as exc:
            err = exc
    if not ok:
        raise err
    close(w, w[::-1], "up-down symmetry", atol=1e-9)
    close(w, w[:, ::-1], "left-right symmetry", atol=1e-9)
    # radially non-increasing
    order = np.argsort(r.ravel())
    require((np.diff(w.ravel()[order]) <= 1e-9).all(),
            "window grows outwards")
    return 0 < w.mean() < 1


@facet(st.fixed_dictionaries(dict(
    kind=kinds, alpha=frac, beta=frac, shape=gen.shapes2(5, 24),
    cube=st.booleans())), quick=200, thorough=6000,
    rule="windows reached through the statistics equal the bare ones")
def through_statistics(case):
    shape = tuple(case["shape"])
    kw = dict(kernel_type=case["kind"], alpha=case["alpha"],
              beta=case["beta"])
    if case["cube"]:
        s = VCA(np.ones((3,) + shape), header=gen.header3((3,) + shape))
    else:
        s = PowerSpectrum(np.ones(shape), header=gen.header2(shape))
    got = s.apodizing_kernel(**kw)
    want = make(case["kind"], case["alpha"], case["beta"])(shape)
    close(got, want, "kernel from the statistic", rtol=1e-12)
    raises(ValueError, lambda: s.apodizing_kernel(kernel_type="box"),
           "unknown kernel type")
    # defaults are the documented 0.1 and 0
    close(s.apodizing_kernel(), TukeyWindow(0.1)(shape), "default kernel",
          rtol=1e-12)
    return 0 < want.mean() < 1
