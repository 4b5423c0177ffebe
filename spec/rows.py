"""Which rows are used: subsampling and the alignment of everything that belongs to a row."""
import numpy as np
import effector
from vspec import *
from spec.common import build, fit, inputs


def subsample(method, feature, size, axis="data"):
    """the result on a subsample of n rows is the result on exactly those rows"""
    N, X, E, _ = inputs(axis="none")
    if size == "all":
        n, rows = "all", np.arange(N)
    elif size == "smaller":
        n = dim("n", 2)
        assume(n < N)
        rows = sampled(1, N, n)
    else:
        n = dim("n", 2)
        assume(n >= N)
        rows = np.arange(N)
    ax = None
    if axis == "given":
        lo = array("lo", (3,))
        ax = np.array([lo, lo + array("w", (3,), kind="pos")])
    Y = X[rows]
    assume(np.min(Y[:, feature]) < np.max(Y[:, feature]))
    k = mark()
    m = build(method, X, ax, n, E)
    ref = build(method, Y, ax, "all", E[rows])
    draws_ = events("rng", k)
    if size == "smaller":
        same("one draw", len(draws_), 1)
        what, pop, count, replace = draws_[0]
        same("drawn among", pop, N)
        holds("rows drawn", or_(count == n, count == N))
        holds("distinct rows", replace is False)
    else:
        same("no draw", len(draws_), 0)
    same("rows kept", m.data, Y)
    same("number of rows", len(m.data), len(Y))
    xs = array("xs", (dim("T", 1),))
    for c in [False, "zero_start"]:
        fit(m, method, feature, c)
        fit(ref, method, feature, c)
        same("effect", m.eval(feature, xs, heterogeneity=True, centering=c), ref.eval(feature, xs, heterogeneity=True, centering=c))
    nowrite("data", "data")
    nowrite("effects", "effects")


def within(method, feature, centering):
    """the result with axis limits is the result on the rows inside them, with their derivatives"""
    N, X, E, ax = inputs(axis="given")
    keep = np.logical_and(X[:, feature] >= ax[0, feature], X[:, feature] <= ax[1, feature])
    Y = X[keep]
    assume(len(np.unique(Y[:, feature])) > 3)
    m = build(method, X, ax, "all", E)
    ref = build(method, Y, ax, "all", E[keep])
    xs = array("xs", (dim("T", 1),))
    fit(m, method, feature, centering)
    fit(ref, method, feature, centering)
    same("effect", m.eval(feature, xs, heterogeneity=True, centering=centering), ref.eval(feature, xs, heterogeneity=True, centering=centering))
    nowrite("data", "data")
    nowrite("effects", "effects")


def index(kind, size):
    """an interaction index on a subsample is the index of exactly those rows"""
    from effector.interaction import HIndex, REPID
    N = dim("N", 3)
    X = array("X", (N, 3), owner="data")
    n, rows = "all", np.arange(N)
    if size != "all":
        n = dim("n", 2)
        assume(n < N if size == "smaller" else n >= N)
    if size == "smaller":
        rows = sampled(1, N, n)
    f = model("M", 3)
    k = mark()
    h = HIndex(X, f, n) if kind == "H" else REPID(X, f, jac("J", 3), n)
    draws_ = events("rng", k)
    if size == "smaller":
        same("one draw", len(draws_), 1)
        what, pop, count, replace = draws_[0]
        same("drawn among", pop, N)
        holds("rows drawn", or_(count == n, count == N))
        holds("distinct rows", replace is False)
    else:
        same("no draw", len(draws_), 0)
    same("rows kept", h.data, X[rows])
    same("number of rows", len(h.data), len(rows))
    if kind == "H":
        ref = HIndex(X[rows], f, "all")
        same("pair", h.eval_pairwise(0, 1), ref.eval_pairwise(0, 1))
        same("one against all", h.eval_one_vs_all(2), ref.eval_one_vs_all(2))
    nowrite("data", "data")
