"""Interaction measures: H-statistic and REPID."""
import numpy as np
import effector
from effector.interaction import HIndex, REPID
from vspec import *


def world(size="all"):
    """(object arguments, the rows in use)"""
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    if size == "all":
        return X, "all", X
    n = dim("n", 2)
    if size == "smaller":
        assume(n < N)
        return X, n, X[sampled(1, N, n)]
    assume(n >= N)
    return X, n, X


def pd(Z, features, x):
    """centred partial dependence at the rows x of the given features, averaged over the rows Z"""
    M = func("M")

    def at(k, i):
        row = [Z[i, 0], Z[i, 1], Z[i, 2]]
        for p, j in enumerate(features):
            row[j] = x[k, p]
        return M(*row)
    y = np.mean(arr((x.shape[0], Z.shape[0]), at), axis=1)
    return y - np.mean(y)


def h_pair(Z, a, b):
    f1, f2 = pd(Z, [a], Z[:, [a]]), pd(Z, [b], Z[:, [b]])
    f12 = pd(Z, [a, b], Z[:, [a, b]])
    return np.mean(np.square(f12 - f1 - f2)) / np.mean(np.square(f12))


def h_all(Z, a):
    rest = [j for j in range(3) if j != a]
    f1, f2 = pd(Z, [a], Z[:, [a]]), pd(Z, rest, Z[:, rest])
    y = model("M", 3)(Z)
    y = y - np.mean(y)
    return np.mean(np.square(y - f1 - f2)) / np.mean(np.square(y))


def pairwise(a, b, size="all"):
    """H-statistic of two features, symmetric, the same when asked again"""
    X, n, Z = world(size)
    h = HIndex(X, model("M", 3), n)
    want = h_pair(Z, a, b)
    same("interaction", h.eval_pairwise(a, b), want)
    same("again", h.eval_pairwise(a, b), want)
    same("the other way round", h.eval_pairwise(b, a), want)
    same("matrix", h.interaction_matrix[a, b], want)
    same("matrix transposed", h.interaction_matrix[b, a], want)
    nowrite("data", "data")


def one_vs_all(a, size="all"):
    X, n, Z = world(size)
    h = HIndex(X, model("M", 3), n)
    want = h_all(Z, a)
    same("interaction", h.eval_one_vs_all(a), want)
    same("again", h.eval_one_vs_all(a), want)
    same("vector", h.one_vs_all_matrix[a], want)
    nowrite("data", "data")


def summarise_pd():
    """partial dependence (decided by the scenarios above) as an uninterpreted function"""
    p1, p2 = func("pd1"), func("pd2")

    def one(self, feature, x):
        return arr((x.shape[0],), lambda k: p1(feature, x[k]))

    def two(self, f1, f2, x1, x2):
        return arr((x1.shape[0],), lambda k: p2(f1, f2, x1[k], x2[k]))

    def rest(self, feature, x):
        return arr((x.shape[0],), lambda k: p2(feature, x[k, 0], x[k, 1], 1))
    intercept("effector.interaction", "HIndex._pdp_1d", one)
    intercept("effector.interaction", "HIndex._pdp_2d", two)
    intercept("effector.interaction", "HIndex._pdp_minus_1d", rest)


def hfit(pairs, every, first=None):
    """fit computes every value of the matrices asked for, whatever was evaluated before"""
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    h = HIndex(X, model("M", 3), "all")
    b = HIndex(X, model("M", 3), "all")
    if first is not None:
        h.eval_pairwise(first[0], first[1])
        h.eval_one_vs_all(first[0])
    h.fit(pairwise_matrix=pairs, one_vs_all=every)
    for i in range(3):
        if every:
            same("one against all %d" % i, h.one_vs_all_matrix[i], b.eval_one_vs_all(i))
        if pairs:
            same("diagonal", h.interaction_matrix[i, i], 0)
            for j in range(i + 1, 3):
                v = b.eval_pairwise(i, j)
                same("pair %d %d" % (i, j), h.interaction_matrix[i, j], v)
                same("pair %d %d" % (j, i), h.interaction_matrix[j, i], v)
    nowrite("data", "data")


def hplot(first=None):
    """plotting shows the computed values and keeps them"""
    summarise_pd()
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    h = HIndex(X, model("M", 3), "all")
    b = HIndex(X, model("M", 3), "all")
    if first is not None:
        h.fit(pairwise_matrix=first == "pairs", one_vs_all=first == "all")
    k = mark()
    h.plot()
    calls = draws(k)
    bars = [c for c in calls if c[0].split(".")[-1] == "barh"]
    images = [c for c in calls if c[0].split(".")[-1] == "imshow"]
    holds("one bar chart", len(bars) == 1)
    holds("one image", len(images) == 1)
    for i in range(3):
        same("bars", bars[0][1][1][i], b.eval_one_vs_all(i))
        same("vector", h.one_vs_all_matrix[i], b.eval_one_vs_all(i))
        for j in range(3):
            if i != j:
                v = b.eval_pairwise(min(i, j), max(i, j))
                same("image", images[0][1][0][i, j], v)
                same("matrix", h.interaction_matrix[i, j], v)
        same("diagonal", h.interaction_matrix[i, i], 0)
    nowrite("data", "data")


def repid_of(Z, j):
    """mean over the range of the feature of the deviation between curves that start together"""
    M = func("M")
    lo, hi = np.min(Z[:, j]), np.max(Z[:, j])
    g = np.linspace(lo, hi, 21)
    x = 0.5 * (g[:-1] + g[1:])

    def at(v, i):
        row = [Z[i, 0], Z[i, 1], Z[i, 2]]
        row[j] = v
        return M(*row)
    ice = arr((20, Z.shape[0]), lambda k, i: at(x[k], i) - at(lo, i))
    return np.mean(np.std(ice, axis=1))


def repid(a, other, size="all", how="eval"):
    X, n, Z = world(size)
    for j in range(3):
        assume(np.min(Z[:, j]) < np.max(Z[:, j]))
    r = REPID(X, model("M", 3), jac("J", 3), n)
    want = repid_of(Z, a)
    if how == "other first":
        r.eval_one_vs_all(other)
    if how == "fit":
        r.fit(a)
        same("stored", r.one_vs_all_matrix[a], want)
    if how == "fit all":
        r.fit()
        for j in range(3):
            same("stored", r.one_vs_all_matrix[j], repid_of(Z, j))
    same("interaction", r.eval_one_vs_all(a), want)
    same("again", r.eval_one_vs_all(a), want)
    same("stored", r.one_vs_all_matrix[a], want)
    nowrite("data", "data")


def repid_plot(features):
    """the plot shows the values of all features"""
    X, n, Z = world("all")
    for j in range(3):
        assume(np.min(Z[:, j]) < np.max(Z[:, j]))
    r = REPID(X, model("M", 3), jac("J", 3), n)
    if features is not None:
        r.fit(features)
    k = mark()
    r.plot()
    bars = [c for c in draws(k) if c[0].split(".")[-1] == "barh"]
    holds("one bar chart", len(bars) == 1)
    for j in range(3):
        same("bar %d" % j, bars[0][1][1][j], repid_of(Z, j))
    nowrite("data", "data")
