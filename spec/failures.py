"""A call that is refused leaves the object as it was: what it returns afterwards is what it would have returned."""
import numpy as np
import effector
from effector.binning_methods import Fixed
from vspec import *
from spec.common import build, fit, populated, summarise_bins
from spec.history import start, done
from spec import regional as R
from spec.reject import flat_effects


def attempt(m, what, feature, method, X, ax):
    """a call with an option outside the documented set"""
    xs = np.array([real("p")])
    if what == "fit centering":
        return catch(lambda: m.fit(feature, centering="zero"))
    if what == "fit all centering":
        return catch(lambda: m.fit("all", centering="zero"))
    if what == "eval centering":
        return catch(lambda: m.eval(feature, xs, heterogeneity=True, centering="zero"))
    if what == "plot centering":
        return catch(lambda: m.plot(feature, heterogeneity=True, centering="zero"))
    if what == "plot heterogeneity":
        return catch(lambda: m.plot(feature, heterogeneity="spread", centering="zero_start"))
    if what == "features":
        return catch(lambda: m.fit(1.5, centering="zero_start"))
    if what == "binning":
        return catch(lambda: m.fit(feature, binning_method="quantile", centering="zero_start"))
    if what == "bins":
        return catch(lambda: m.fit(feature, binning_method=Fixed(nof_bins=dim("Q", 1), min_points_per_bin=X.shape[0] + dim("more", 1), cat_limit=0), centering="zero_start"))


def unfitted(method, what, feature=1, centering="zero_integral"):
    """the first fit is refused: evaluating then fits the feature as in a new object"""
    ale = method == "ALE" or method.startswith("RHALE")
    refuse = [False]
    X, E, ax, xs = start(method, feature, feature)
    if ale:
        summarise_bins()
        L = np.array([ax[0, feature] - 1, (ax[0, feature] + ax[1, feature]) / 2, ax[1, feature] + 1])

        def find(self, *args, **kw):
            self.limits = False if refuse[0] else L
            return self.limits
        for name in ["Fixed", "Greedy", "DP"]:
            intercept("effector.bin_splitting", name + ".find", find)
    want = build(method, X, ax, "all", E).eval(feature, xs, heterogeneity=True, centering=centering)
    b = build(method, X, ax, "all", E)
    refuse[0] = what == "bins"
    o = attempt(b, what, feature, method, X, ax)
    refuse[0] = False
    assume(o[0] == "raises")
    same("effect", b.eval(feature, xs, heterogeneity=True, centering=centering), want)
    for j in range(3):
        if j != feature:
            holds("feature %d is not fitted" % j, not b.is_fitted[j])
    done()


def effect(method, what, feature=1, centering="zero_integral", fitted=True):
    """on a global effect, before or after a fit"""
    if method == "ALE" or method.startswith("RHALE"):
        summarise_bins()
    X, E, ax, xs = start(method, feature, feature)
    a = build(method, X, ax, "all", E)
    fit(a, method, feature, centering)
    want = a.eval(feature, xs, heterogeneity=True, centering=centering)
    b = build(method, X, ax, "all", E)
    if fitted:
        fit(b, method, feature, centering)
    o = attempt(b, what, feature, method, X, ax)
    assume(o[0] == "raises")
    if not fitted:
        fit(b, method, feature, centering)
    same("effect", b.eval(feature, xs, heterogeneity=True, centering=centering), want)
    same("uncentered effect", b.eval(feature, xs, heterogeneity=True, centering=False), a.eval(feature, xs, heterogeneity=True, centering=False))
    if what != "fit all centering":
        for j in range(3):
            if j != feature:
                holds("feature %d is not fitted" % j, not b.is_fitted[j])
    done()


def partition(method, what, feature=1):
    """on a regional effect: the subregions stay"""
    flat_effects()
    X = np.array([[1.0 * i, real("a%d" % i), real("b%d" % i)] for i in range(4)])
    r = R.build(method, X, None, "all", np.ones((4, 3)), types=("cont", "cont", "cont"))
    r.fit(feature, max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[0], min_points_per_subregion=2, heter_small_enough=-1.0, heter_pcg_drop_thres=-0.5)
    xs = np.array([real("p")])
    before = shown(r, feature)
    if what == "points":
        o = catch(lambda: r.fit(feature, min_points_per_subregion=1))
    elif what == "depth":
        o = catch(lambda: r.fit(feature, max_depth=2, candidate_conditioning_features=[2], min_points_per_subregion=2))
    elif what == "centering":
        o = catch(lambda: r.fit(feature, centering="zero"))
    elif what == "binning":
        o = catch(lambda: r.fit(feature, binning_method="quantile"))
    elif what == "features":
        o = catch(lambda: r.fit(1.5))
    elif what == "eval":
        o = catch(lambda: r.eval(feature, 7, xs))
    elif what == "plot":
        o = catch(lambda: r.plot(feature, 7))
    assume(o[0] == "raises")
    same("subregions", shown(r, feature), before)
    holds("fitted", r.is_fitted[feature])


def shown(r, feature):
    out = []
    for t in [r.tree_full["feature_%d" % feature], r.tree_pruned["feature_%d" % feature]]:
        out.append([(n.name, n.heterogeneity, n.weight, n.level, n.nof_instances, np.array(n.data["data"])) for n in t.nodes])
    return out


def index(what, k, kind="H"):
    """an interaction index whose model fails at some call"""
    from effector.interaction import HIndex, REPID
    from spec.interaction import summarise_pd
    N = dim("N", 2)
    X = array("X", (N, 3), owner="data")
    M = model("M", 3)
    calls, on = [0], [True]

    def failing(x):
        calls[0] += 1
        if on[0] and calls[0] >= k:
            raise ValueError("the model is not available")
        return M(x)
    a = HIndex(X, failing, "all")
    b = HIndex(X, M, "all")
    if what == "pairs":
        o = catch(lambda: a.fit(pairwise_matrix=True, one_vs_all=False))
    elif what == "all":
        o = catch(lambda: a.fit(pairwise_matrix=False, one_vs_all=True))
    else:
        o = catch(lambda: a.plot())
    assume(o[0] == "raises")
    on[0] = False
    m = mark()
    a.plot()
    calls_ = draws(m)
    bars = [c for c in calls_ if c[0].split(".")[-1] == "barh"]
    images = [c for c in calls_ if c[0].split(".")[-1] == "imshow"]
    for i in range(3):
        same("bars", bars[0][1][1][i], b.eval_one_vs_all(i))
        for j in range(i + 1, 3):
            v = b.eval_pairwise(i, j)
            same("pairwise", a.eval_pairwise(i, j), v)
            same("image", images[0][1][0][i, j], v)
            same("image", images[0][1][0][j, i], v)
    nowrite("data", "data")
