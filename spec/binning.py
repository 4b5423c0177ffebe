"""Bin limits: equal bins, greedy merging, dynamic programming, categorical features, and how options reach them."""
import numpy as np
import effector
import effector.binning_methods as bm
import effector.bin_splitting as be
from vspec import *


def world(feature, axis="data", kind="real"):
    """instances inside the axis limits, with their effects"""
    N = dim("N", 2)
    X = array("X", (N, 3), kind=kind, owner="data")
    E = array("E", (N, 3), owner="effects")
    lo, hi = np.min(X[:, feature]), np.max(X[:, feature])
    A = np.array([np.min(X, axis=0), np.max(X, axis=0)])
    if axis == "wider":
        below, above = array("below", (3,), kind="pos"), array("above", (3,), kind="pos")
        A = np.array([np.min(X, axis=0) - below, np.max(X, axis=0) + above])
        lo, hi = lo - below[feature], hi + above[feature]
    return N, X, E, None if axis == "absent" else own(A, "axis_limits"), lo, hi


def members(x, a, b):
    return np.logical_and(a <= x, x <= b)


def enough(x, a, b, minp):
    return np.sum(members(x, a, b)) >= minp


def cost(x, e, a, b, minp, discount):
    """size-weighted variance of the effects; impossible when the bin is empty or too small"""
    m = members(x, a, b)
    n = np.sum(m)
    return ite(or_(n < minp, n == 0), np.inf, np.var(e[m]) * (b - a) * (1 - discount * (n / x.shape[0])))


def untouched():
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("axis limits", "axis_limits")


def impossible(x, minp):
    return or_(len(np.unique(x)) == 1, x.shape[0] < minp)


def agree(label, got, limits):
    """limits: False, or the bin limits"""
    if limits is False:
        assert got is False, label
        same(label, 0, 0)
    else:
        assert got is not False, label
        same(label, got, limits)


def limit(x, catlim):
    """a categorical limit that the feature exceeds"""
    if catlim == 0:
        return 0
    C = dim("C", 1)
    assume(len(np.unique(x)) > C)
    return C


def search_before(prior, X, E, feature, A, K, d):
    """an unrelated search over the same instances with other options"""
    if prior == "minp":
        be.DP(X, E, feature, A).find(K, 1, d, 0)
        be.Greedy(X, E, feature, A).find(K, d, 1, 0)
    elif prior == "discount":
        be.DP(X, E, feature, A).find(K, 0, d + 1, 0)
        be.Greedy(X, E, feature, A).find(K, d + 1, 0, 0)
    elif prior == "effects":
        be.DP(X, 2 * X, feature, A).find(K, 0, d, 0)
        be.Greedy(X, 2 * X, feature, A).find(K, d, 0, 0)


def fixed(feature, axis="data", minp="any", kind="real", catlim=0):
    """equal bins over the axis limits, rejected when one of them holds too few instances"""
    N, X, E, A, lo, hi = world(feature, axis, kind)
    K = dim("K", 1)
    mp = 0 if minp == "none" else integer("minp") if minp == "any" else minp
    if minp == "any":
        assume(mp >= 0)
    x = X[:, feature]
    got = be.Fixed(X, E, feature, A).find(K, mp, limit(x, catlim))
    if impossible(x, mp):
        agree("limits", got, False)
    else:
        L = np.linspace(lo, hi, K + 1)
        if all(enough(x, L[i], L[i + 1], mp) for i in range(K)):
            agree("limits", got, L)
        else:
            agree("limits", got, False)
    untouched()


def categorical(which, feature, axis="data", minp=0):
    """a feature with few distinct values has one bin around each of them"""
    N, X, E, A, lo, hi = world(feature, axis)
    x = X[:, feature]
    C = dim("C", 2)
    u = np.unique(x)
    assume(len(u) <= C)
    assume(len(u) >= 2)
    if which == "fixed":
        got = be.Fixed(X, E, feature, A).find(5, minp, C)
    elif which == "greedy":
        got = be.Greedy(X, E, feature, A).find(5, 0.3, minp, C)
    else:
        got = be.DP(X, E, feature, A).find(5, minp, 0.3, C)
    U = len(u)
    mid = arr((U - 1,), lambda k: (u[k] + u[k + 1]) / 2)
    L = np.concatenate([[u[0] - (u[1] - u[0]) / 2], mid, [u[-1] + (u[-1] - u[-2]) / 2]])
    if N < minp:
        agree("limits", got, False)
    elif all(enough(x, L[i], L[i + 1], minp) for i in range(U)):
        agree("limits", got, L)
    else:
        agree("limits", got, False)
    untouched()


def greedy(feature, init, axis="data", minp=0, catlim=0, prior=None):
    """neighbouring bins are merged from the left while the merged bin does not cost more"""
    N, X, E, A, lo, hi = world(feature, axis)
    x, e = X[:, feature], E[:, feature]
    d = pos("discount")
    search_before(prior, X, E, feature, A, init, d)
    got = be.Greedy(X, E, feature, A).find(init, d, minp, limit(x, catlim))
    untouched()
    if impossible(x, minp):
        agree("limits", got, False)
        return
    if or_(N < 2 * minp, np.allclose(lo, hi)):
        agree("limits", got, np.array([lo, hi]))
        return
    g = np.linspace(lo, hi, init + 1)

    def go(out, k):
        if k == init:
            if not enough(x, g[out[-1]], hi, minp):
                out = out[:-1]
            return np.array([g[i] for i in out + [init]])
        one = cost(x, e, g[out[-1]], g[k], minp, d)
        two = cost(x, e, g[out[-1]], g[k + 1], minp, d)
        if and_(enough(x, g[out[-1]], g[k], minp), enough(x, g[out[-1]], g[k + 1], minp), two > one):
            return go(out + [k], k + 1)
        return go(out, k + 1)
    agree("limits", got, go([0], 1))


def dynprog(feature, K, axis="data", minp=0, catlim=0, prior=None):
    """the cheapest way to join neighbouring cells of an even grid into bins, fewest bins last among equals"""
    N, X, E, A, lo, hi = world(feature, axis)
    x, e = X[:, feature], E[:, feature]
    d = pos("discount")
    search_before(prior, X, E, feature, A, K, d)
    got = be.DP(X, E, feature, A).find(K, minp, d, limit(x, catlim))
    untouched()
    if impossible(x, minp):
        agree("limits", got, False)
        return
    if K == 1 or or_(N < 2 * minp, np.allclose(lo, hi)):
        agree("limits", got, np.array([lo, hi]))
        return
    g = lo + np.arange(K + 1) * ((hi - lo) / K)

    def c(i, j):
        return cost(x, e, g[i], g[j], minp, d)

    def cheapest(j):
        """(cost, way) of the first cells up to j"""
        ways = [(c(0, j), [0, j])]
        for i in range(1, j):
            before, way = cheapest(i)
            ways.append((before + c(i, j), way + [j]))
        best = ways[0]
        for w in ways[1:]:
            if w[0] < best[0]:
                best = w
        return best
    agree("limits", got, lo + np.array(cheapest(K)[1]) * ((hi - lo) / K))
