"""Documented calls complete: no exception other than the documented rejections, whatever the data."""
import numpy as np
import effector
from effector.binning_methods import Fixed, Greedy, DynamicProgramming
from vspec import *
from spec.common import build, inputs, populated, summarise_bins
from spec import regional as R

FEATURES = {"all": "all", "one": 1, "list": [0, 2]}
BINS = {"fixed": "fixed", "greedy": "greedy", "dp": "dp", "Fixed": Fixed(nof_bins=7, min_points_per_bin=0, cat_limit=0), "Greedy": Greedy(), "DP": DynamicProgramming()}


def scale(j):
    return own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale")


def global_(method, features, axis, centering, heter, names=False, avg=False, bins=None, scaled=True, points=None):
    """constructor, fit, evaluation and plot of a global method"""
    summarise_bins()
    N, X, E, ax = inputs(axis=axis)
    fs = [0, 1, 2] if features == "all" else ([1] if features == "one" else [0, 2])
    for j in fs:
        populated(None, method, j, X, ax)
    kw = {}
    if names:
        kw = dict(feature_names=["a", "b", "c"], target_name="t")
    if avg:
        kw["avg_output"] = real("avg")
    m = build(method, X, ax, "all", E, **kw)
    o = dict(centering=centering)
    if bins is not None:
        o["binning_method"] = BINS[bins]
    if points is not None:
        o["points_for_centering"] = points
    m.fit(FEATURES[features], **o)
    xs = array("xs", (dim("T", 1),))
    for j in fs:
        m.eval(j, xs)
        m.eval(j, xs, heterogeneity=True, centering=centering)
        o = dict(heterogeneity=heter, centering=centering, y_limits=[-1.0, 1.0])
        if scaled:
            o.update(scale_x=scale(j), scale_y=scale(3), show_avg_output=True)
        if scaled and (method == "ALE" or method.startswith("RHALE")):
            o["dy_limits"] = [-2.0, 2.0]
        m.plot(j, **o)
    holds("completed", True)


def regional(method, features, only, scaled, names=False, centering=False, depth=1, nodes=(0, 1, 2), points=None):
    """constructor, fit, printing, evaluation and plot of a regional method"""
    summarise_bins()
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    kw = dict(feature_names=["a", "b", "c"], target_name="t") if names else {}
    r = R.build(method, X, None, "all", E, **kw)
    K, P = dim("K", 1), 30 if points is None else points
    r.fit(FEATURES[features], max_depth=depth, nof_candidate_splits_for_numerical=1, min_points_per_subregion=2, heter_small_enough=-1.0,
          centering=centering, **R.fitargs(method, K, P))
    sx = [scale(j) for j in range(3)] if scaled else None
    fs = [0, 1, 2] if features == "all" else ([1] if features == "one" else [0, 2])
    for j in fs:
        t = r.tree_pruned["feature_" + str(j)]
        assume(len(t.nodes) == 3)
        assume(len(r.tree_full["feature_" + str(j)].nodes) == 3)
    what = 1 if features == "one" else FEATURES[features]
    r.show_partitioning(what, only_important=only, scale_x_list=sx)
    r.describe_subregions(what, only_important=only, scale_x_list=sx)
    holds("completed", True)
