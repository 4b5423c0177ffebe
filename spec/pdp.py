"""Scenarios for PDP / d-PDP."""
import numpy as np
import effector
from vspec import *

H = 1e-6


def limits(how, D=3):
    """user-given axis limits (or None: the limits are those of the data)"""
    if how == "data":
        return None
    lo = array("lo", (D,))
    w = array("w", (D,), kind="pos")
    return np.array([lo, lo + w])


def inside(X, ax, j):
    if ax is None:
        return X
    keep = np.logical_and(X[:, j] >= ax[0, j], X[:, j] <= ax[1, j])
    return X[keep]


def ices(cls, X, j, xs):
    """one row per evaluation point, one column per instance: only feature j is replaced"""
    M, J = func("M"), func("J")

    def element(k, i):
        def at(v):
            row = [X[i, 0], X[i, 1], X[i, 2]]
            row[j] = v
            return M(*row) if cls != "d-PDP" else J(j, *row)
        if cls == "d-PDP-num":
            return (at(xs[k] + H) - at(xs[k] - H)) / (2 * H)
        return at(xs[k])
    return arr((xs.shape[0], X.shape[0]), element)


def make(cls, X, ax, n="all"):
    f = model("M", 3)
    if cls == "PDP":
        return effector.PDP(X, f, axis_limits=ax, nof_instances=n)
    return effector.DerPDP(X, f, None if cls == "d-PDP-num" else jac("J", 3), axis_limits=ax, nof_instances=n)


def lims(X, ax, j):
    if ax is None:
        return np.min(X[:, j]), np.max(X[:, j])
    return ax[0, j], ax[1, j]


def eval_uncentered(cls, feature, heter, vect, axis="data", kind="real", xkind="real"):
    N, T = dim("N", 2), dim("T", 1)
    X = array("X", (N, 3), kind=kind, owner="data")
    ax = limits(axis)
    if ax is None:
        assume(np.min(X[:, feature]) < np.max(X[:, feature]))
    pdp = make(cls, X, ax)
    xs = array("xs", (T,), kind=xkind, owner="xs")
    pdp.fit(feature, centering=False)
    got = pdp.eval(feature, xs, heterogeneity=heter, centering=False, use_vectorized=vect)
    ice = ices(cls, inside(X, ax, feature), feature, xs)
    m = np.mean(ice, axis=1)
    if heter:
        same("eval", got, (m, np.std(ice, axis=1)))
    else:
        same("eval", got, m)
    same("all curves", pdp.eval(feature, xs, centering=False, return_all=True, use_vectorized=vect), ice)
    nowrite("data", "data")
    nowrite("xs", "xs")


def centred(cls, X, ax, feature, xs, centering, P):
    Z = inside(X, ax, feature)
    ice = ices(cls, Z, feature, xs)
    lo, hi = lims(X, ax, feature)
    if centering is False:
        return ice
    if centering == "zero_start":
        c = ices(cls, Z, feature, np.array([lo]))[0]
    else:
        c = np.mean(ices(cls, Z, feature, np.linspace(lo, hi, P)), axis=0)
    return ice - np.expand_dims(c, axis=0)


def eval_centered(cls, feature, centering, fitc, heter=True, vect=True, axis="data", points=None):
    """fit with one centering, ask for another"""
    N, T = dim("N", 2), dim("T", 1)
    X = array("X", (N, 3), owner="data")
    ax = limits(axis)
    if ax is None:
        assume(np.min(X[:, feature]) < np.max(X[:, feature]))
    pdp = make(cls, X, ax)
    xs = array("xs", (T,), owner="xs")
    if fitc != "none":
        if points is None:
            pdp.fit(feature, centering=fitc, use_vectorized=vect)
        else:
            pdp.fit(feature, centering=fitc, points_for_centering=points, use_vectorized=vect)
    P = 100 if points is None else points
    got = pdp.eval(feature, xs, heterogeneity=heter, centering=centering, use_vectorized=vect)
    ice = centred(cls, X, ax, feature, xs, "zero_integral" if centering is True else centering, P)
    m = np.mean(ice, axis=1)
    same("centred", got, (m, np.std(ice, axis=1)) if heter else m)
    nowrite("data", "data")


def functions(n, feature, heter, jacobian, kind="real", xkind="real"):
    """the stand-alone averaging functions"""
    from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized
    fn = pdp_1d_vectorized if n == "vec" else pdp_1d_non_vectorized
    N, T = dim("N", 2), dim("T", 1)
    X = array("X", (N, 3), kind=kind, owner="data")
    xs = array("xs", (T,), kind=xkind, owner="xs")
    cls = {"no": "PDP", "yes": "d-PDP", "num": "d-PDP-num"}[jacobian]
    m = jac("J", 3) if jacobian == "yes" else model("M", 3)
    got = fn(m, X, xs, feature, heter, jacobian == "yes", False, jacobian == "num")
    ice = ices(cls, X, feature, xs)
    if heter:
        s = np.std(ice, axis=1)
        same("1d", got, (np.mean(ice, axis=1), s, s / np.sqrt(N)))
    else:
        same("1d", got, np.mean(ice, axis=1))
    nowrite("data", "data")
    nowrite("xs", "xs")


def functions_nd(n, features, heter, kind="real", xkind="real"):
    from effector.global_effect_pdp import pdp_nd_vectorized, pdp_nd_non_vectorized
    fn = pdp_nd_vectorized if n == "vec" else pdp_nd_non_vectorized
    N, T = dim("N", 2), dim("T", 1)
    X = array("X", (N, 3), kind=kind, owner="data")
    xs = array("xs", (T, len(features)), kind=xkind, owner="xs")
    f = model("M", 3)
    got = fn(f, X, xs, features, heter, False)
    ice = []
    for k in range(T):
        Z = X.astype(float)
        for i, j in enumerate(features):
            Z[:, j] = xs[k, i]
        ice.append(f(Z))
    ice = np.array(ice)
    if heter:
        s = np.std(ice, axis=1)
        same("nd", got, (np.mean(ice, axis=1), s, s / np.sqrt(N)))
    else:
        same("nd", got, np.mean(ice, axis=1))
    nowrite("data", "data")
    nowrite("xs", "xs")
