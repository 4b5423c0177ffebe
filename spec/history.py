"""Results do not depend on what else was fitted, evaluated or plotted before."""
import numpy as np
import effector
from effector.binning_methods import Fixed
from vspec import *
from spec.common import build, fit, inputs, populated, summarise_bins


def start(method, feature, other):
    N, X, E, ax = inputs(axis="given")
    for j in set([feature, other]):
        populated(None, method, j, X, ax)
    xs = array("xs", (dim("T", 1),), owner="xs")
    return X, E, ax, xs


def done():
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("axis limits", "axis_limits")
    nowrite("xs", "xs")


def other_features(method, feature, other, centering, order):
    """work on another feature, before or after, changes nothing"""
    X, E, ax, xs = start(method, feature, other)
    a = build(method, X, ax, "all", E)
    fit(a, method, feature, centering)
    want = a.eval(feature, xs, heterogeneity=True, centering=centering)
    b = build(method, X, ax, "all", E)
    if order == "before":
        fit(b, method, other, "zero_integral")
        b.eval(other, xs, heterogeneity=True, centering="zero_start")
    fit(b, method, feature, centering)
    if order == "after":
        fit(b, method, other, "zero_start")
        b.eval(other, xs, heterogeneity=True, centering=True)
        b.eval(other, xs, heterogeneity=False, centering=False)
    same("after other work", b.eval(feature, xs, heterogeneity=True, centering=centering), want)
    done()


def recentre(method, feature, seq, fitc):
    """a sequence of evaluations with changing centering: each is what a freshly built object gives"""
    X, E, ax, xs = start(method, feature, feature)
    b = build(method, X, ax, "all", E)
    fit(b, method, feature, fitc)
    for k, c in enumerate(seq):
        a = build(method, X, ax, "all", E)
        fit(a, method, feature, c)
        want = a.eval(feature, xs, heterogeneity=True, centering=c)
        same("evaluation %d" % k, b.eval(feature, xs, heterogeneity=True, centering=c), want)
    done()


def lastfit(method, feature, c1, c2, cfg, summary=False):
    """the configuration of the last fit is the one in force"""
    if summary:
        summarise_bins()
    X, E, ax, xs = start(method, feature, feature)
    a = build(method, X, ax, "all", E)
    b = build(method, X, ax, "all", E)
    ale = method.startswith("RHALE") or method == "ALE"
    K1, K2 = dim("K", 1), dim("Q", 1)

    def go(m, c, second):
        if ale:
            m.fit(feature, binning_method=Fixed(K2 if second else K1, 0, 0), centering=c)
        elif cfg:
            m.fit(feature, centering=c, points_for_centering=37 if second else 21)
        else:
            m.fit(feature, centering=c)
    go(b, c1, False)
    b.eval(feature, xs, centering=c1)
    go(b, c2, True)
    go(a, c2, True)
    same("after a second fit", b.eval(feature, xs, heterogeneity=True, centering=c2), a.eval(feature, xs, heterogeneity=True, centering=c2))
    # evaluation under another centering keeps the fitted configuration
    d = build(method, X, ax, "all", E)
    go(d, "zero_start", True)
    same("other centering", b.eval(feature, xs, heterogeneity=True, centering="zero_start"), d.eval(feature, xs, heterogeneity=True, centering="zero_start"))
    e = build(method, X, ax, "all", E)
    go(e, True, True)
    same("third centering", b.eval(feature, xs, heterogeneity=True, centering=True), e.eval(feature, xs, heterogeneity=True, centering=True))
    done()


def together(method, how, centering):
    """fitting several features at once is fitting each of them"""
    X, E, ax, xs = start(method, 0, 2)
    populated(None, method, 1, X, ax)
    b = build(method, X, ax, "all", E)
    fit(b, method, how, centering)
    for j in ([0, 1, 2] if how == "all" else how if type(how) is list else [how]):
        a = build(method, X, ax, "all", E)
        fit(a, method, j, centering)
        same("feature %d" % j, b.eval(j, xs, heterogeneity=True, centering=centering), a.eval(j, xs, heterogeneity=True, centering=centering))
    done()


def plotting(method, feature, het, centering):
    """plotting changes no result"""
    X, E, ax, xs = start(method, feature, feature)
    a = build(method, X, ax, "all", E)
    fit(a, method, feature, "zero_start")
    want0 = a.eval(feature, xs, heterogeneity=True, centering=False)
    want = a.eval(feature, xs, heterogeneity=True, centering="zero_start")
    sx = own({"mean": real("mx"), "std": pos("sx")}, "scale_x")
    sy = own({"mean": real("my"), "std": pos("sy")}, "scale_y")
    a.plot(feature, heterogeneity=het, centering=centering, scale_x=sx, scale_y=sy, show_avg_output=True)
    same("uncentred", a.eval(feature, xs, heterogeneity=True, centering=False), want0)
    same("centred", a.eval(feature, xs, heterogeneity=True, centering="zero_start"), want)
    nowrite("scale_x", "scale_x")
    nowrite("scale_y", "scale_y")
    done()


class Echo:
    """an effect whose heterogeneity is one everywhere, and whose mean tells how it was configured"""

    def __init__(self):
        self.config = 0

    def fit(self, *args, **kw):
        for x in list(args) + [kw[k] for k in kw]:
            if type(x) is Fixed:
                self.config = x.nof_bins
            elif type(x) is int and x > 9:
                self.config = x

    def eval(self, feature, xs, *args, **kw):
        return np.zeros(xs.shape[0]) + self.config, np.ones(xs.shape[0])


def regional_other(method, feature=1, other=0, order="before"):
    """a regional effect: work on another feature, before or after, changes nothing for this one"""
    from spec import regional as R
    make = lambda *args, **kw: Echo()
    for mod, name in [("ale", "ALE"), ("ale", "RHALE"), ("pdp", "PDP"), ("pdp", "DerPDP"), ("shap", "ShapDP")]:
        intercept("effector.global_effect_" + mod, name, make)
    X = np.array([[1.0 * i, real("a%d" % i), 10.0 * (i % 2)] for i in range(4)])
    xs = np.array([real("p")])
    o = dict(max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[2], min_points_per_subregion=2, heter_small_enough=-1.0, heter_pcg_drop_thres=-0.5)
    p = dict(max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[1], min_points_per_subregion=2, heter_small_enough=1e7)
    if R.is_ale(method):
        o["binning_method"], p["binning_method"] = Fixed(11, 0, 0), Fixed(13, 0, 0)
    else:
        o["points_for_centering"], p["points_for_centering"] = 17, 19
    for i in range(3):
        assume(real("a%d" % i) < real("a%d" % (i + 1)))
    a = R.build(method, X, None, "all", np.ones((4, 3)), types=("cont", "cont", "cont"))
    a.fit(feature, **o)
    b = R.build(method, X, None, "all", np.ones((4, 3)), types=("cont", "cont", "cont"))
    if order == "before":
        b.fit(other, **p)
        b.eval(other, 0, xs, heterogeneity=True, centering="zero_start")
    elif order == "again":
        b.fit(feature, **p)
    b.fit(feature, **o)
    if order == "after":
        b.fit(other, **p)
        b.eval(other, 0, xs, heterogeneity=True, centering=True)
        b.show_partitioning(other)
    same("subregions", shown(b, feature), shown(a, feature))
    same("number of subregions", len(a.tree_pruned["feature_%d" % feature].nodes), 3)
    for node in range(3):
        got = b.eval(feature, node, xs, heterogeneity=True, centering=True)
        same("effect in subregion %d" % node, got, a.eval(feature, node, xs, heterogeneity=True, centering=True))
        same("configuration in subregion %d" % node, got[0][0], o["binning_method"].nof_bins if R.is_ale(method) else o["points_for_centering"])
    k = mark()
    b.show_partitioning(feature)
    b.describe_subregions(feature)
    got = printed(k)
    k = mark()
    a.show_partitioning(feature)
    a.describe_subregions(feature)
    same("printed", got, printed(k))


def shown(r, feature):
    out = []
    for t in [r.tree_full["feature_%d" % feature], r.tree_pruned["feature_%d" % feature]]:
        out.append([(n.name, n.heterogeneity, n.weight, n.level, n.nof_instances, np.array(n.data["data"])) for n in t.nodes])
    return out


def two(method, feature, centering, order, other="model"):
    """another object, of other data or another model, changes nothing"""
    X, E, ax, xs = start(method, feature, feature)
    if method == "ALE" or method.startswith("RHALE"):
        summarise_bins()
    fresh = build(method, X, ax, "all", E)
    fit(fresh, method, feature, centering)
    want = fresh.eval(feature, xs, heterogeneity=True, centering=centering)
    Y, F = array("Y", (dim("Q", 4), 3)), array("F", (dim("Q", 4), 3))
    populated(None, method, feature, Y, ax)
    if order == "made before":
        b = build(method, Y, ax, "all", F)
        fit(b, method, feature, centering)
        a = build(method, X, ax, "all", E)
    else:
        a = build(method, X, ax, "all", E)
        if order != "made between":
            fit(a, method, feature, centering)
        b = build(method, Y, ax, "all", F)
        fit(b, method, feature, centering)
    if order in ["made before", "made between"]:
        fit(a, method, feature, centering)
    b.eval(feature, xs, heterogeneity=True, centering="zero_start")
    same("with another object", a.eval(feature, xs, heterogeneity=True, centering=centering), want)
    done()
