"""Regional effects: fit, eval and plot."""
import numpy as np
import effector
from effector.binning_methods import Fixed
from vspec import *
from spec.common import summarise_bins, populated

BIG = 1e8
NAMES = ["a", "b", "c"]
RMETHODS = ["PDP", "d-PDP", "ALE", "RHALE", "RHALE-eff", "ShapDP"]


def build(method, X, ax=None, n="all", E=None, types=("cont", "cont", "cont"), **kw):
    f, J = model("M", 3), jac("J", 3)
    o = dict(nof_instances=n, axis_limits=ax, feature_types=types if types is None or type(types) is list else list(types), **kw)
    if method == "PDP":
        return effector.RegionalPDP(X, f, **o)
    if method == "d-PDP":
        return effector.RegionalDerPDP(X, f, J, **o)
    if method == "ALE":
        return effector.RegionalALE(X, f, **o)
    if method == "RHALE":
        return effector.RegionalRHALE(X, f, J, **o)
    if method == "RHALE-eff":
        return effector.RegionalRHALE(X, f, None, E, **o)
    return effector.RegionalShapDP(X, f, **o)


def glob(method, X, E=None, ax=None, **kw):
    """the global method on a set of rows (with their effects)"""
    f, J = model("M", 3), jac("J", 3)
    if method == "PDP":
        return effector.PDP(X, f, axis_limits=ax, nof_instances="all", **kw)
    if method == "d-PDP":
        return effector.DerPDP(X, f, J, axis_limits=ax, nof_instances="all", **kw)
    if method == "ALE":
        return effector.ALE(X, f, axis_limits=ax, nof_instances="all", **kw)
    if method == "RHALE":
        return effector.RHALE(X, f, None, axis_limits=ax, nof_instances="all", data_effect=J(X), **kw)
    if method == "RHALE-eff":
        return effector.RHALE(X, f, None, axis_limits=ax, nof_instances="all", data_effect=E, **kw)
    return effector.ShapDP(X, f, axis_limits=ax, nof_instances="all", **kw)


def is_ale(method):
    return method in ["ALE", "RHALE", "RHALE-eff"]


def fitargs(method, K, P):
    if is_ale(method):
        return dict(binning_method=Fixed(nof_bins=K, min_points_per_bin=0, cat_limit=0))
    return dict(points_for_centering=P)


def heterogeneity(method, j, ax, minp, centering, K, P):
    """of a set of rows: that of the global method, summarised over the range of the feature in these rows"""
    def heter(X, E):
        if len(X) < minp:
            return BIG
        m = glob(method, X, E, ax if method in ["PDP", "d-PDP"] else None)
        try:
            m.fit(j, centering=centering, **fitargs(method, K, P))
            lo, hi = np.min(X[:, j]), np.max(X[:, j])
            if is_ale(method):
                return m.eval(j, np.array([hi]), heterogeneity=True, centering=False)[1][0]
            c = centering if method in ["PDP", "d-PDP"] else False
            return np.mean(m.eval(j, np.linspace(lo, hi, 10), heterogeneity=True, centering=c)[1])
        except AssertionError:
            return BIG
    return heter


def fit_tree(method, feature, other, centering=False, axis="data", minp=4):
    """heterogeneities in the tree are those of the global method on the rows of the node"""
    summarise_bins()
    N = dim("N", 4)
    assume(N >= minp)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    ax = None
    if axis == "given":
        lo = array("lo", (3,))
        ax = own(np.array([lo, lo + array("w", (3,), kind="pos")]), "axis_limits")
    r = build(method, X, ax, "all", E)
    K, P = dim("K", 1), 30
    r.fit(feature, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[other], min_points_per_subregion=minp,
          heter_small_enough=-1.0, centering=centering, **fitargs(method, K, P))
    heter = heterogeneity(method, feature, ax if ax is not None else np.array([np.min(X, axis=0), np.max(X, axis=0)]), minp, centering, K, P)
    t = r.tree_full["feature_" + str(feature)]
    lo, hi = np.min(X[:, other]), np.max(X[:, other])
    cut = (lo + hi) / 2
    a, b = X[:, other] <= cut, X[:, other] > cut
    same("number of nodes", len(t.nodes), 3)
    for node, (y, e) in zip(t.nodes, [(X, E), (X[a], E[a]), (X[b], E[b])]):
        same("rows", node.data["data"], y)
        same("heterogeneity", node.heterogeneity, heter(y, e))
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("axis limits", "axis_limits")


def fitted(method, feature, other, fitc, axis, size="all", minp=4, **kw):
    """a fitted regional effect with one kept split, and the rows / effects of its nodes"""
    summarise_bins()
    N = dim("N", 4)
    assume(N >= minp)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    rows = np.arange(N)
    n = "all"
    if size == "smaller":
        n = dim("n", 4)
        assume(n < N)
        rows = sampled(1, N, n)
    ax = None
    if axis == "given":
        lo = array("lo", (3,))
        ax = own(np.array([lo, lo + array("w", (3,), kind="pos")]), "axis_limits")
    r = build(method, X, ax, n, E, **kw)
    K, P = dim("K", 1), 30
    r.fit(feature, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[other], min_points_per_subregion=minp,
          heter_small_enough=-1.0, centering=fitc, **fitargs(method, K, P))
    Y, F = X[rows], E[rows]
    J = jac("J", 3)
    lo, hi = np.min(Y[:, other]), np.max(Y[:, other])
    cut = (lo + hi) / 2
    a, b = Y[:, other] <= cut, Y[:, other] > cut
    t = r.tree_pruned["feature_" + str(feature)]
    assume(len(t.nodes) == 3)
    return r, ax, [(Y, F), (Y[a], F[a]), (Y[b], F[b])], K, P, t


def evaluate(method, feature, other, node, fitc=False, centering=False, heter=True, axis="data", size="all"):
    """evaluating a subregion is evaluating the global method on its rows, as configured at the regional fit"""
    r, ax, parts, K, P, t = fitted(method, feature, other, fitc, axis, size)
    Z, F = parts[node]
    assume(np.min(Z[:, feature]) < np.max(Z[:, feature]))
    populated(None, method, feature, Z, ax)
    m = glob(method, Z, F, ax)
    m.fit(feature, centering=centering, **fitargs(method, K, P))
    xs = array("xs", (dim("T", 1),), owner="xs")
    want = m.eval(feature, xs, heterogeneity=heter, centering=centering)
    same("effect", r.eval(feature, node, xs, heterogeneity=heter, centering=centering), want)
    same("again", r.eval(feature, node, xs, heterogeneity=heter, centering=centering), want)
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("axis limits", "axis_limits")
    nowrite("xs", "xs")


def plots(method, feature, other, node, centering=False, heter=True, axis="data", names=None, target=None, scaled=False):
    """the plot of a subregion is the plot of the global method on its rows, labelled with the subregion"""
    kw = {}
    if names is not None:
        kw["feature_names"] = own(list(names), "names")
    if target is not None:
        kw["target_name"] = target
    r, ax, parts, K, P, t = fitted(method, feature, other, False, axis, "all", **kw)
    Z, F = parts[node]
    assume(np.min(Z[:, feature]) < np.max(Z[:, feature]))
    populated(None, method, feature, Z, ax)
    sx, sy = None, None
    title = list(names) if names is not None else ["x_0", "x_1", "x_2"]
    if scaled:
        sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)]
        sy = own({"mean": real("my"), "std": pos("sy")}, "scale")
    cut = (np.min(parts[0][0][:, other]) + np.max(parts[0][0][:, other])) / 2
    if sx is not None:
        cut = cut * sx[other]["std"] + sx[other]["mean"]
    if node > 0:
        title[feature] = title[feature] + " | " + title[other] + (" <= ", "  > ")[node - 1] + str(np.round(cut, 2))
    m = glob(method, Z, F, ax, feature_names=title, target_name="y" if target is None else target)
    m.fit(feature, centering=centering, **fitargs(method, K, P))
    k = mark()
    m.plot(feature, heterogeneity=heter, centering=centering, scale_x=None if sx is None else sx[feature], scale_y=sy)
    want = draws(k)
    k = mark()
    r.plot(feature, node, heterogeneity=heter, centering=centering, scale_x_list=sx, scale_y=sy)
    same("picture", draws(k), want)
    nowrite("data", "data")
    nowrite("names", "names")
    nowrite("scale", "scale")
