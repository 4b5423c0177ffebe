"""What the constructors work out when the caller leaves it out; what the caller gives is taken as it is."""
import numpy as np
import effector
from vspec import *
from spec.common import build
from spec.regional import build as rbuild


def same_limits(got, X, ax):
    same("axes", len(got), 2)
    for j in range(X.shape[1]):
        same("lower limit %d" % j, got[0, j], np.min(X[:, j]) if ax is None else ax[0, j])
        same("upper limit %d" % j, got[1, j], np.max(X[:, j]) if ax is None else ax[1, j])


def given_limits():
    lo = array("lo", (3,))
    return own(np.array([lo, lo + array("w", (3,), kind="pos")]), "axis_limits")


def used(X, N):
    """the rows drawn when fewer than all are asked for"""
    n = dim("n", 2)
    assume(n < N)
    return X[sampled(1, N, n)]


def effect(method, given, n="all"):
    """a global effect"""
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    f = model("M", 3)
    kw, ax = {}, None
    if given:
        ax = given_limits()
        kw = dict(avg_output=real("avg"), feature_names=["a", "b", "c"], target_name="price")
    m = build(method, X, ax, n if n == "all" else dim("n", 2), E, **kw)
    if n != "all":
        X = used(X, N)
    same_limits(m.axis_limits, X, ax)
    same("average output", m.avg_output, real("avg") if given else np.mean(f(X)))
    same("data", m.data, X)
    holds("nothing is fitted", not any([m.is_fitted[j] for j in range(3)]))
    if given:
        same("feature names", list(m.feature_names), ["a", "b", "c"])
        same("target name", m.target_name, "price")
    nowrite("data", "data")


def regional(method, given, limit="symbolic", n="all"):
    """a regional effect"""
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    kw, ax, types = {}, None, None
    c = 10
    if given:
        ax, types = given_limits(), ["cat", "cont", "cat"]
        kw = dict(feature_names=["a", "b", "c"], target_name="price")
    if limit == "symbolic":
        c = integer("c")
    if limit != "default":
        kw["cat_limit"] = c
    r = rbuild(method, X, ax, n if n == "all" else dim("n", 2), E, types=types, **kw)
    same_limits(r.axis_limits, X, ax)
    for j in range(3):
        if given:
            same("type %d" % j, r.feature_types[j], types[j])
        else:
            holds("type %d" % j, (r.feature_types[j] == "cat") == (len(np.unique(X[:, j])) < c))
            holds("type %d is known" % j, r.feature_types[j] in ["cat", "cont"])
    same("feature names", list(r.feature_names), ["a", "b", "c"] if given else ["x_0", "x_1", "x_2"])
    same("target name", r.target_name, "price" if given else "y")
    same("data", r.data, X if n == "all" else used(X, N))
    holds("nothing is fitted", not any([r.is_fitted[j] for j in range(3)]))
    nowrite("data", "data")


def interaction(kind):
    """an interaction index: no pair is known before it is computed"""
    from effector.interaction import HIndex, REPID
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    h = HIndex(X, model("M", 3), "all") if kind == "H" else REPID(X, model("M", 3), jac("J", 3), "all")
    same("data", h.data, X)
    same("number of features", h.nof_features, 3)
    nowrite("data", "data")
