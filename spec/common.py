"""One way to build and fit every global method."""
import numpy as np
import effector
from effector.binning_methods import Fixed
from vspec import *

METHODS = ["PDP", "d-PDP", "d-PDP-num", "ALE", "RHALE", "RHALE-eff", "RHALE-num", "ShapDP"]


def build(method, X, ax=None, n="all", E=None, **kw):
    f = model("M", 3)
    J = jac("J", 3)
    if method == "PDP":
        return effector.PDP(X, f, axis_limits=ax, nof_instances=n, **kw)
    if method == "d-PDP":
        return effector.DerPDP(X, f, J, axis_limits=ax, nof_instances=n, **kw)
    if method == "d-PDP-num":
        return effector.DerPDP(X, f, axis_limits=ax, nof_instances=n, **kw)
    if method == "ALE":
        return effector.ALE(X, f, axis_limits=ax, nof_instances=n, **kw)
    if method == "RHALE":
        return effector.RHALE(X, f, J, axis_limits=ax, nof_instances=n, **kw)
    if method == "RHALE-eff":
        return effector.RHALE(X, f, None, axis_limits=ax, nof_instances=n, data_effect=E, **kw)
    if method == "RHALE-both":
        return effector.RHALE(X, f, J, axis_limits=ax, nof_instances=n, data_effect=E, **kw)
    if method == "RHALE-num":
        return effector.RHALE(X, f, axis_limits=ax, nof_instances=n, **kw)
    if method == "ShapDP":
        return effector.ShapDP(X, f, axis_limits=ax, nof_instances=n, **kw)


def fit(m, method, feature, centering, K=None):
    if method.startswith("RHALE") or method == "ALE":
        m.fit(feature, binning_method=Fixed(nof_bins=dim("K", 1) if K is None else K, min_points_per_bin=0, cat_limit=0), centering=centering)
    else:
        m.fit(feature, centering=centering)


def inputs(N=None, axis="given", effects=False):
    N = dim("N", 3) if N is None else N
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    if axis == "given":
        lo = array("lo", (3,))
        ax = own(np.array([lo, lo + array("w", (3,), kind="pos")]), "axis_limits")
    else:
        ax = None
        for j in range(3):
            assume(np.min(X[:, j]) < np.max(X[:, j]))
    return N, X, E, ax


def populated(m, method, feature, X, ax):
    """the scenario is about features with at least two distinct values inside the axis limits"""
    Z = X
    if ax is not None:
        Z = X[np.logical_and(X[:, feature] >= ax[0, feature], X[:, feature] <= ax[1, feature])]
    assume(len(np.unique(Z[:, feature])) > 1)


def summarise_bins():
    """bin statistics and accumulation (decided by P04) as uninterpreted functions of their arguments"""
    cnt, eff, var, est, acc = func("points"), func("binmean"), func("binvar"), func("binest"), func("accumulate")

    def params(xs, df_dxs, limits):
        K = limits.shape[0] - 1
        return {"limits": limits, "dx": limits[1:] - limits[:-1],
                "points_per_bin": arr((K,), lambda k: cnt(xs, df_dxs, limits, k)), "bin_effect": arr((K,), lambda k: eff(xs, df_dxs, limits, k)),
                "bin_variance": arr((K,), lambda k: abs(var(xs, df_dxs, limits, k))), "bin_estimator_variance": arr((K,), lambda k: abs(est(xs, df_dxs, limits, k)))}

    def accumulated(x, limits, bin_effect, dx, square=False):
        return arr((x.shape[0],), lambda i: acc(x[i], limits, bin_effect, dx))
    intercept("effector.utils", "compute_ale_params", params)
    intercept("effector.utils", "compute_accumulated_effect", accumulated)
