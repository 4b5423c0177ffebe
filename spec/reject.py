"""Options outside the documented set are rejected: they raise, they are never taken for another option."""
import numpy as np
import effector
from effector.binning_methods import Fixed, Greedy, DynamicProgramming
from vspec import *
from spec.common import build, fit, inputs, populated
from spec import regional as R


def refused(label, thunk):
    holds(label + " is rejected", catch(thunk)[0] == "raises")


def centering(method, value, where, feature=1, heter=False):
    """an unknown centering"""
    N, X, E, ax = inputs(axis="given")
    populated(None, method, feature, X, ax)
    m = build(method, X, ax, "all", E)
    xs = array("xs", (dim("T", 1),))
    if where == "fit":
        refused("fit", lambda: fit(m, method, feature, value))
        return
    fit(m, method, feature, True)
    if where == "eval":
        refused("eval", lambda: m.eval(feature, xs, heterogeneity=heter, centering=value))
    else:
        refused("plot", lambda: m.plot(feature, heterogeneity=heter, centering=value))


def heterogeneity(method, value, feature=1):
    """an unknown way to show the heterogeneity"""
    N, X, E, ax = inputs(axis="given")
    populated(None, method, feature, X, ax)
    m = build(method, X, ax, "all", E)
    fit(m, method, feature, True)
    refused("plot", lambda: m.plot(feature, heterogeneity=value))


def binning(method, value, feature=1):
    """an unknown binning method, or one that the method cannot use"""
    N, X, E, ax = inputs(axis="given")
    populated(None, method, feature, X, ax)
    m = build(method, X, ax, "all", E)
    if value == "Greedy":
        value = Greedy()
    if value == "DP":
        value = DynamicProgramming()
    refused("fit", lambda: m.fit(feature, binning_method=value))


def impossible(method, feature=1):
    """bins that cannot be built are an error"""
    N, X, E, ax = inputs(axis="given")
    populated(None, method, feature, X, ax)
    m = build(method, X, ax, "all", E)
    K = dim("K", 1)
    inside = X[np.logical_and(X[:, feature] >= ax[0, feature], X[:, feature] <= ax[1, feature])]
    least = len(inside) + dim("more", 1)
    refused("fit", lambda: m.fit(feature, binning_method=Fixed(nof_bins=K, min_points_per_bin=least, cat_limit=0)))


def instances(method, value):
    """a number of instances that is neither an integer nor 'all'"""
    N, X, E, ax = inputs(axis="given")
    refused("constructor", lambda: build(method, X, ax, value, E))


def flat(method, where, feature=1):
    """an effect over an empty or inverted range"""
    N = dim("N", 3)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    lo = array("lo", (3,))
    ax = np.array([lo, lo - array("w", (3,), kind="pos") if where == "inverted" else lo])
    xs = array("xs", (dim("T", 1),))

    def all():
        m = build(method, X, ax, "all", E)
        fit(m, method, feature, False)
        return m.eval(feature, xs)
    refused("effect", all)


def shapes(method, how):
    """data that is not a matrix"""
    N = dim("N", 3)
    X = array("X", (N,), owner="data") if how == 1 else array("X", (N, 3, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    refused("constructor", lambda: build(method, X, np.array([[0.0] * 3, [1.0] * 3]), "all", E))


def features(method, value):
    """features given as something else than 'all', a number or a list"""
    N, X, E, ax = inputs(axis="given")
    m = build(method, X, ax, "all", E)
    refused("fit", lambda: m.fit(value))


def node(method, what, k, other=0, feature=1, **kw):
    """a subregion that does not exist"""
    r, ax, parts, K, P, t = R.fitted(method, feature, other, False, "data")
    xs = array("xs", (dim("T", 1),))
    if what == "eval":
        refused("eval", lambda: r.eval(feature, k, xs))
    elif what == "plot":
        refused("plot", lambda: r.plot(feature, k))
    else:
        refused("node info", lambda: r.get_node_info(feature, k))


def cutcat(method, what, feature=1):
    """the subregions of a categorical feature, which has none"""
    R.summarise_bins()
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    r = R.build(method, X, None, "all", E, types=("cont", "cat", "cont"))
    r.fit(feature, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[0], min_points_per_subregion=2)
    xs = array("xs", (dim("T", 1),))
    if what == "eval":
        refused("eval", lambda: r.eval(feature, 1, xs))
    else:
        refused("plot", lambda: r.plot(feature, 1))


class Flat:
    """an effect whose heterogeneity is one everywhere"""

    def fit(self, *args, **kw):
        pass

    def eval(self, feature, xs, *args, **kw):
        return np.zeros(xs.shape[0]), np.ones(xs.shape[0])


def flat_effects():
    """the search itself is not at stake: the effects of the candidate subregions are left out"""
    make = lambda *args, **kw: Flat()
    for mod, name in [("ale", "ALE"), ("ale", "RHALE"), ("pdp", "PDP"), ("pdp", "DerPDP"), ("shap", "ShapDP")]:
        intercept("effector.global_effect_" + mod, name, make)


def regionalfit(method, what, feature=1):
    """options of a regional fit"""
    # the search itself is not at stake: four rows, evenly spaced in the conditioning feature, effects left out
    flat_effects()
    X = np.array([[1.0 * i, real("a%d" % i), real("b%d" % i)] for i in range(4)])
    r = R.build(method, X, None, "all", np.ones((4, 3)), types=("cont", "cont", "cont"))
    o = dict(max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[0], min_points_per_subregion=2, heter_small_enough=1e7)
    if what == "points":
        o["min_points_per_subregion"] = 1
    elif what == "depth":
        o["max_depth"] = 2
    elif what == "binning":
        o["binning_method"] = "quantile"
    elif what == "centering":
        o["centering"] = "zero"
    elif what == "types":
        o["features"] = 1.5
    refused("fit", lambda: r.fit(o.pop("features", feature), **o))


def regionaluse(method, what, feature=1, other=0):
    """options of the effect in a subregion"""
    r, ax, parts, K, P, t = R.fitted(method, feature, other, False, "data")
    Z, F = parts[1]
    assume(np.min(Z[:, feature]) < np.max(Z[:, feature]))
    xs = array("xs", (dim("T", 1),))
    if what == "eval":
        refused("eval", lambda: r.eval(feature, 1, xs, centering="zero"))
    elif what == "plot":
        refused("plot", lambda: r.plot(feature, 1, centering="zero"))
    else:
        refused("plot", lambda: r.plot(feature, 1, heterogeneity="spread"))


def nd(which, derivative):
    """the number of features and that of the columns of the positions differ"""
    from effector.global_effect_pdp import pdp_nd_vectorized, pdp_nd_non_vectorized
    f, J = model("M", 3), jac("J", 3)
    X = array("X", (dim("N", 1), 3))
    x = array("xs", (dim("T", 1), 2))
    o = dict(heterogeneity=False)
    o["model_returns_jac" if which == "vec" else "is_jac"] = derivative
    g = pdp_nd_vectorized if which == "vec" else pdp_nd_non_vectorized
    refused("positions", lambda: g(J if derivative else f, X, x, [1] if derivative else [0, 1, 2], **o))
