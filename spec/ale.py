"""Scenarios for ALE / RHALE; 'wide' bins reach beyond the axis limits, as those around the values of a categorical feature do."""
import numpy as np
import effector
from effector.binning_methods import Fixed
from vspec import *
from spec.pdp import inside, lims, limits


def grid(lo, hi, K):
    """strictly increasing bin limits from lo to hi, otherwise arbitrary"""
    w = array("wid", (K,), kind="pos")
    tot = np.sum(w)
    return arr((K + 1,), lambda k: lo + (hi - lo) * np.sum(np.where(np.arange(K) < k, w, 0)) / tot)


def binning(how, lo, hi, K):
    """(argument for fit, the bin limits it leads to)"""
    if how == "uniform":
        return Fixed(nof_bins=K, min_points_per_bin=0, cat_limit=0), np.linspace(lo, hi, K + 1)
    L = grid(lo, hi, K)
    if how == "wide":
        L = grid(lo - pos("below"), hi + pos("above"), K)

    def find(self, *a, **k):
        self.limits = L
        return L
    intercept("effector.bin_splitting", "Fixed.find", find)
    return Fixed(nof_bins=K, min_points_per_bin=0), L




def bin_of(x, L):
    """0-based bin of every point; bins are closed on the left, the last also on the right"""
    K = L.shape[0] - 1
    edges = np.where(np.arange(K + 1) == K, np.inf, L)
    return arr((x.shape[0],), lambda i: np.sum(edges <= x[i]) - 1)


def fill(y):
    """undefined bins take the linear interpolation of the defined ones"""
    bad = np.isnan(y)
    k = np.arange(y.shape[0])
    return np.where(bad, np.interp(k, k[np.logical_not(bad)], y[np.logical_not(bad)]), y)


def bin_stats(x, e, L):
    b = bin_of(x, L)
    K = L.shape[0] - 1
    cnt = arr((K,), lambda k: np.sum(b == k))
    mu = arr((K,), lambda k: ite(cnt[k] == 0, np.nan, np.sum(np.where(b == k, e, 0)) / cnt[k]))
    mub = mu[b]
    var = arr((K,), lambda k: ite(cnt[k] > 1, np.sum(np.where(b == k, (e - mub) ** 2, 0)) / cnt[k], np.nan))
    return cnt, mu, var


def local_effects(X, j, L):
    f = model("M", 3)
    b = bin_of(X[:, j], L)
    R = X.astype(float)
    R[:, j] = L[b + 1]
    Z = X.astype(float)
    Z[:, j] = L[b]
    return (f(R) - f(Z)) / (L[b + 1] - L[b])


def integral(xs, L, eff):
    """integral from the first limit to x of the piecewise-constant function eff (nothing outside the limits);
    every quantity is tabulated by the number of limits at or below x"""
    full = np.concatenate([[0, 0], np.cumsum(eff * (L[1:] - L[:-1]))])
    left = np.concatenate([[L[0]], L[:-1], [np.inf]])
    slope = np.concatenate([[0.0], eff, [eff[-1]]])

    def at(t):
        b = np.sum(L <= xs[t])
        return full[b] + ite(xs[t] < left[b], 0, xs[t] - left[b]) * slope[b]
    return arr((xs.shape[0],), at)


def ale(method, feature, centering, heter, how, axis="given", fitc="same", n="all", kind="real"):
    N, T = dim("N", 2), dim("T", 1)
    K = dim("K", 1)
    X = array("X", (N, 3), kind=kind, owner="data")
    E = array("E", (N, 3), owner="effects")
    ax = limits(axis)
    lo, hi = lims(X, ax, feature)
    if ax is None:
        assume(np.min(X[:, feature]) < np.max(X[:, feature]))
    bm, L = binning(how, lo, hi, K)
    f = model("M", 3)
    Z = inside(X, ax, feature)
    u = np.unique(Z[:, feature])
    assume(len(u) > 1)
    if method == "ALE":
        m = effector.ALE(X, f, axis_limits=ax, nof_instances=n)
        e = local_effects(Z, feature, L)
    elif method == "RHALE-eff":
        m = effector.RHALE(X, f, None, axis_limits=ax, nof_instances=n, data_effect=E)
        e = E[np.logical_and(X[:, feature] >= lo, X[:, feature] <= hi)][:, feature]
    elif method == "RHALE-num":
        m = effector.RHALE(X, f, None, axis_limits=ax, nof_instances=n)
        A, B = Z.astype(float), Z.astype(float)
        A[:, feature] = Z[:, feature] + 1e-8
        B[:, feature] = Z[:, feature]
        e = (f(A) - f(B)) / 1e-8
    else:
        J = jac("J", 3)
        m = effector.RHALE(X, f, J, axis_limits=ax, nof_instances=n)
        e = J(Z)[:, feature]
    cnt, mu, var = bin_stats(Z[:, feature], e, L)
    m.fit(feature, binning_method=bm, centering=centering if fitc == "same" else fitc)
    xs = array("xs", (T,), owner="xs")
    got = m.eval(feature, xs, heterogeneity=heter, centering=centering)
    mu = fill(mu)
    want = integral(xs, L, mu)
    if centering == "zero_start":
        want = want - integral(np.array([lo]), L, mu)[0]
    elif centering is not False:
        g = np.linspace(lo, hi, 100)
        want = want - np.mean(integral(0.5 * (g[:-1] + g[1:]), L, mu))
    if heter:
        same("effect", got, (want, integral(xs, L, np.sqrt(fill(var)))))
    else:
        same("effect", got, want)
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("xs", "xs")


def filling(K):
    """undefined bins, any number of them, are filled by linear interpolation over the index of the bin"""
    import effector.utils as utils
    v = array("v", (K,))
    bad = array("undefined", (K,), kind="bool")
    assume(np.sum(bad) < K)
    y = np.where(bad, np.nan, v)
    same("filled", utils.fill_nans(y), fill(y))


def statistics():
    """mean, variance and number of points of every bin, whatever the points"""
    import effector.utils as utils
    N, K = dim("N", 2), dim("K", 1)
    x, e = array("x", (N,)), array("e", (N,))
    L = grid(real("lo"), real("lo") + pos("len"), K)
    assume(np.all(np.logical_and(x >= L[0], x <= L[-1])))
    cnt, mu, var = bin_stats(x, e, L)
    assume(np.sum(cnt > 1) > 0)
    p = utils.compute_ale_params(x, e, L)
    same("means", p["bin_effect"], fill(mu))
    same("variances", p["bin_variance"], fill(var))
    same("points", p["points_per_bin"], cnt)
    same("widths", p["dx"], L[1:] - L[:-1])
