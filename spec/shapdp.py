"""Scenarios for SHAP dependence plots."""
import numpy as np
import effector
import shap
from vspec import *
from spec.pdp import inside, lims, limits


def curve(X, ax, j):
    """the fitted splines: attributions of feature j against its values, pairs kept together, ordered by value"""
    Z = inside(X, ax, j)
    f = model("M", 3)
    phi = shap.Explainer(f, Z)(Z).values[:, j]
    order = np.argsort(Z[:, j])
    x, y = Z[:, j][order], phi[order]
    mean = spline(x, y)
    std = spline(x, np.abs(y - mean(x)))
    return x, y, mean, std


def reference(mean, lo, hi, centering, P):
    if centering == "zero_start":
        return mean(np.array([lo]))[0]
    g = np.linspace(lo, hi, P)
    return np.trapz(mean(g), g) / (hi - lo)


def shapdp(feature, centering, fitc, heter, axis="given", points=None, n="all"):
    N, T = dim("N", 3), dim("T", 1)
    X = array("X", (N, 3), owner="data")
    ax = limits(axis)
    if ax is None:
        assume(np.min(X[:, feature]) < np.max(X[:, feature]))
    m = effector.ShapDP(X, model("M", 3), axis_limits=ax, nof_instances=n)
    if fitc != "none":
        if points is None:
            m.fit(feature, centering=fitc)
        else:
            m.fit(feature, centering=fitc, points_for_centering=points)
    xs = array("xs", (T,), owner="xs")
    got = m.eval(feature, xs, heterogeneity=heter, centering=centering)
    x, y, mean, std = curve(X, ax, feature)
    want = mean(xs)
    lo, hi = lims(X, ax, feature)
    if centering is not False:
        want = want - reference(mean, lo, hi, centering, 100 if points is None else points)
    same("effect", got, (want, std(xs)) if heter else want)
    nowrite("data", "data")
    nowrite("xs", "xs")
