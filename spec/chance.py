"""Randomness: one draw of distinct rows when an object is built with fewer instances than there are, none otherwise."""
import numpy as np
import effector
from effector.interaction import HIndex, REPID
from effector.binning_methods import Fixed
from vspec import *
from spec.common import build, fit, populated, summarise_bins
from spec.regional import build as rbuild, is_ale


def sizes(how):
    N = dim("N", 4)
    X, E = array("X", (N, 3)), array("E", (N, 3))
    if how == "all":
        return N, X, E, "all", 0
    n = dim("n", 4)
    if how == "smaller":
        assume(n < N)
        return N, X, E, n, 1
    assume(n >= N)
    return N, X, E, n, 0


def draw(k, N, n, times):
    ev = events("rng", k)
    holds("number of random draws", len(ev) == times)
    for what, pop, size, replace in ev:
        same("drawn among", pop, N)
        holds("rows drawn", or_(size == n, size == N))
        holds("distinct rows", replace is False)


def globals_(method, how, feature=1, centering="zero_start"):
    N, X, E, n, times = sizes(how)
    k = mark()
    m = build(method, X, None, n, E)
    draw(k, N, n, times)
    for j in range(3):
        populated(None, method, j, m.data, None)
        assume(np.min(m.data[:, j]) < np.max(m.data[:, j]))
    if method.startswith("RHALE") or method == "ALE":
        summarise_bins()
    k = mark()
    fit(m, method, [0, feature], centering)
    xs = array("xs", (dim("T", 1),))
    m.eval(feature, xs, heterogeneity=True, centering=centering)
    m.eval(feature, xs, heterogeneity=False, centering=True)
    m.plot(feature, heterogeneity=True, centering=False)
    draw(k, N, n, 0)


def regional(method, how, feature=1, other=0):
    N, X, E, n, times = sizes(how)
    summarise_bins()
    k = mark()
    r = rbuild(method, X, None, n, E)
    draw(k, N, n, times)
    k = mark()
    r.fit(feature, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[other], min_points_per_subregion=2,
          heter_small_enough=-1.0, **(dict(binning_method=Fixed(5, 0, 0)) if is_ale(method) else {}))
    assume(len(r.tree_pruned["feature_%d" % feature].nodes) == 3)
    assume(np.min(r.data[:, feature]) < np.max(r.data[:, feature]))
    populated(None, method, feature, r.data, None)
    r.eval(feature, 0, array("xs", (dim("T", 1),)), heterogeneity=True, centering=True)
    r.plot(feature, 0, heterogeneity=True, centering=True)
    r.show_partitioning(feature)
    draw(k, N, n, 0)


def interaction(kind, how):
    N, X, E, n, times = sizes(how)
    k = mark()
    h = HIndex(X, model("M", 3), n) if kind == "H" else REPID(X, model("M", 3), jac("J", 3), n)
    draw(k, N, n, times)
    k = mark()
    h.eval_one_vs_all(1)
    if kind == "H":
        h.eval_pairwise(0, 1)
    draw(k, N, n, 0)


def undrawn(method, heter, scale, feature=1):
    """a plot that does not show the curves of the instances picks none, whatever number of them is given"""
    X = array("X", (dim("N", 4), 3))
    m = build(method, X, None, "all", None)
    assume(np.min(m.data[:, feature]) < np.max(m.data[:, feature]))
    m.fit(feature, centering=True)
    k = mark()
    s = {"mean": real("mu"), "std": pos("sd")} if scale else None
    m.plot(feature, heterogeneity=heter, centering=True, nof_ice=2, scale_x=s, scale_y=s)
    holds("number of random draws", len(events("rng", k)) == 0)
