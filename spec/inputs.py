"""Objects of the caller are never modified, results are the caller's own, and nothing is random unless asked for."""
import numpy as np
import effector
import effector.binning_methods as bm
import effector.utils as utils
import effector.helpers as helpers
from effector.binning_methods import Fixed
from vspec import *
from spec.common import build, fit, populated, summarise_bins
from spec.pdp import limits
from spec.regional import build as rbuild, is_ale

OWNERS = ["data", "effects", "axis_limits", "xs", "names", "features", "scale", "y_limits", "types", "conditioning"]


def untouched():
    for o in OWNERS:
        nowrite(o, o)


def quiet(k):
    holds("nothing is drawn at random", len(events("rng", k)) == 0)


def world(axis="given"):
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    ax = None
    if axis == "given":
        ax = own(limits("given"), "axis_limits")
    xs = array("xs", (dim("T", 1),), owner="xs")
    sx = own([own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)], "scale")
    sy = own({"mean": real("my"), "std": pos("sy")}, "scale")
    return X, E, ax, xs, sx, sy


def binobj(kind):
    k, m, d, c = dim("K", 1), 0, pos("d"), 0
    return {"fixed": bm.Fixed(k, m, c), "greedy": bm.Greedy(2, m, d, c), "dp": bm.DynamicProgramming(2, m, d, c)}[kind]


def state(o):
    return [o.min_points_per_bin, o.cat_limit, getattr(o, "discount", 0), getattr(o, "nof_bins", 0), getattr(o, "max_nof_bins", 0)]


def everywhere(method, feature, axis="given", heter=True, centering="zero_start"):
    """a whole session with a global method"""
    X, E, ax, xs, sx, sy = world(axis)
    for j in range(3):
        populated(None, method, j, X, ax)
    k = mark()
    names = own(["a", "b", "c"], "names")
    m = build(method, X, ax, "all", E, feature_names=names, target_name="t")
    feats = own([2, feature], "features")
    o = {}
    b = binobj("fixed")
    before = state(b)
    if method.startswith("RHALE") or method == "ALE":
        summarise_bins()
        o = dict(binning_method=b)
    m.fit(feats, centering=centering, **o)
    m.eval(feature, xs, heterogeneity=heter, centering=centering)
    m.eval(feature, xs, heterogeneity=False, centering=True)
    yl = own([real("ylo"), real("yhi")], "y_limits")
    more = dict(dy_limits=own([real("dlo"), real("dhi")], "y_limits")) if len(o) else {}
    m.plot(feature, heterogeneity=heter, centering=False, scale_x=sx[feature], scale_y=sy, show_avg_output=True, y_limits=yl, **more)
    m.plot(2, heterogeneity=heter, centering=centering)
    same("binning method", state(b), before)
    untouched()
    quiet(k)


def twice(method, feature, centering, heter):
    """results belong to the caller: changing one changes no other"""
    X, E, ax, xs, sx, sy = world("given")
    populated(None, method, feature, X, ax)
    if method.startswith("RHALE") or method == "ALE":
        summarise_bins()
    a, b = build(method, X, ax, "all", E), build(method, X, ax, "all", E)
    fit(a, method, feature, centering)
    fit(b, method, feature, centering)
    want = b.eval(feature, xs, heterogeneity=heter, centering=centering)
    got = a.eval(feature, xs, heterogeneity=heter, centering=centering)
    if heter:
        got[0][:] = 0
        got[1][:] = 0
    else:
        got[:] = 0
    same("again", a.eval(feature, xs, heterogeneity=heter, centering=centering), want)
    if method in ["PDP", "d-PDP", "d-PDP-num"]:
        all_ = a.eval(feature, xs, centering=centering, return_all=True)
        all_[:] = 0
        same("after changing the curves", a.eval(feature, xs, heterogeneity=heter, centering=centering), want)
    untouched()


def overwrite(method, feature, centering):
    """query points may be reused by the caller"""
    X, E, ax, xs, sx, sy = world("given")
    populated(None, method, feature, X, ax)
    if method.startswith("RHALE") or method == "ALE":
        summarise_bins()
    a, b = build(method, X, ax, "all", E), build(method, X, ax, "all", E)
    fit(a, method, feature, centering)
    fit(b, method, feature, centering)
    want = b.eval(feature, xs, heterogeneity=True, centering=centering)
    mine = np.array(xs)
    got = a.eval(feature, mine, heterogeneity=True, centering=centering)
    mine[:] = 0
    same("result", got, want)


def regional(method, feature, other, axis="given", scaled=True, types="cont"):
    """a whole session with a regional method"""
    X, E, ax, xs, sx, sy = world(axis)
    summarise_bins()
    k = mark()
    t = own([types if j == other else "cont" for j in range(3)], "types")
    r = rbuild(method, X, ax, "all", E, types=t, feature_names=own(["a", "b", "c"], "names"), target_name="t")
    feats, cond = own([feature], "features"), own([other], "conditioning")
    b = binobj("fixed")
    before = state(b)
    o = dict(binning_method=b) if is_ale(method) else {}
    r.fit(feats, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=cond, min_points_per_subregion=2,
          heter_small_enough=-1.0, centering="zero_start", **o)
    t = r.tree_pruned["feature_%d" % feature]
    assume(len(t.nodes) == 3)
    populated(None, method, feature, X, ax)
    assume(np.min(X[:, feature]) < np.max(X[:, feature]))
    s = sx if scaled else None
    r.eval(feature, 0, xs, heterogeneity=True, centering=True)
    r.plot(feature, 0, heterogeneity=True, centering=True, scale_x_list=s, scale_y=sy if scaled else None, y_limits=own([real("ylo"), real("yhi")], "y_limits"))
    r.show_partitioning(feats, only_important=True, scale_x_list=s)
    r.describe_subregions(feats, only_important=True, scale_x_list=s)
    same("binning method", state(b), before)
    untouched()
    quiet(k)


def conditioning(method, feature, cond, types="cont", depth=1, cands=1):
    """lists of features are read, never changed, whatever they hold"""
    X, E, ax, xs, sx, sy = world("given")
    summarise_bins()
    populated(None, method, feature, X, ax)
    t = own([types if j in cond else "cont" for j in range(3)], "types")
    names = own(["a", "b", "c"], "names")
    r = rbuild(method, X, ax, "all", E, types=t, feature_names=names, target_name="t")
    feats = own([feature], "features")
    cs = own(list(cond), "conditioning")
    had, ft, fn = list(cond), list(t), list(names)
    o = dict(binning_method=Fixed(dim("K", 1), 0, 0)) if is_ale(method) else {}
    r.fit(feats, max_depth=depth, nof_candidate_splits_for_numerical=cands, candidate_conditioning_features=cs, min_points_per_subregion=2,
          heter_small_enough=-1.0, **o)
    holds("conditioning features", list(cs) == had)
    holds("features", list(feats) == [feature])
    holds("types", list(t) == ft)
    holds("names", list(names) == fn)
    untouched()


def helpers_(what):
    """the public functions behind the methods"""
    X, E, ax, xs, sx, sy = world("given")
    f = model("M", 3)
    K = dim("K", 1)
    lo = real("lo")
    L = own(arr((K + 1,), lambda k: lo + k), "y_limits")
    x, e = own(X[:, 1], "xs"), own(E[:, 1], "effects")
    if what in ["local effects", "bin effect", "bin variance"]:
        assume(np.all(np.logical_and(X[:, 1] >= L[0], X[:, 1] <= L[-1])))
    if what == "local effects":
        utils.compute_local_effects(X, f, L, 1)
    elif what == "filter":
        utils.filter_points_in_bin(x, e, L[:2])
    elif what == "bin effect":
        utils.compute_bin_effect(x, e, L)
    elif what == "bin variance":
        utils.compute_bin_variance(x, e, L, own(array("mu", (K,)), "features"))
    elif what == "fill":
        utils.fill_nans(own(np.where(array("mu", (K,)) > 0, array("mu", (K,)), np.nan), "features"))
    elif what == "accumulate":
        utils.compute_accumulated_effect(x, L, own(array("mu", (K,)), "features"), own(array("dx", (K,), kind="pos"), "names"))
    elif what == "jacobian":
        utils.compute_jacobian_numerically(f, X)
    elif what == "types":
        utils.get_feature_types(X, 10)
    elif what == "limits":
        helpers.axis_limits_from_data(X)
    elif what == "drop":
        helpers.drop_points_outside_axis_limits(X, ax, 1)
    elif what == "average":
        helpers.prep_avg_output(X, f, None, sy)
    untouched()
