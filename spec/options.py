"""How the binning options given by the user reach the binning algorithm."""
import numpy as np
import effector
import effector.binning_methods as bm
from vspec import *
from spec.common import summarise_bins, populated
from spec.pdp import inside, lims, limits


def some(method):
    """a fully configured method object: (argument for fit, (algorithm, bins, minimum, discount, categorical limit))"""
    k, m, d, c = dim("k", 1), integer("m"), pos("d"), dim("c", 1)
    if method == "fixed":
        return bm.Fixed(k, m, c), ("Fixed", k, m, None, c)
    if method == "greedy":
        return bm.Greedy(k, m, d, c), ("Greedy", k, m, d, c)
    return bm.DynamicProgramming(k, m, d, c), ("DP", k, m, d, c)


def named(method):
    """the same by keyword, what is left out takes the documented default"""
    k, m, d, c = dim("k", 1), integer("m"), pos("d"), dim("c", 1)
    return {"fixed-k": (lambda: bm.Fixed(nof_bins=k), ("Fixed", k, 10, None, 15)),
            "fixed-m": (lambda: bm.Fixed(min_points_per_bin=m), ("Fixed", 100, m, None, 15)),
            "fixed-c": (lambda: bm.Fixed(cat_limit=c), ("Fixed", 100, 10, None, c)),
            "greedy-k": (lambda: bm.Greedy(init_nof_bins=k), ("Greedy", k, 10, 0.3, 15)),
            "greedy-m": (lambda: bm.Greedy(min_points_per_bin=m), ("Greedy", 100, m, 0.3, 15)),
            "greedy-d": (lambda: bm.Greedy(discount=d), ("Greedy", 100, 10, d, 15)),
            "greedy-c": (lambda: bm.Greedy(cat_limit=c), ("Greedy", 100, 10, 0.3, c)),
            "dp-k": (lambda: bm.DynamicProgramming(max_nof_bins=k), ("DP", k, 10, 0.3, 15)),
            "dp-m": (lambda: bm.DynamicProgramming(min_points_per_bin=m), ("DP", 20, m, 0.3, 15)),
            "dp-d": (lambda: bm.DynamicProgramming(discount=d), ("DP", 20, 10, d, 15)),
            "dp-c": (lambda: bm.DynamicProgramming(cat_limit=c), ("DP", 20, 10, 0.3, c))}[method]


STRINGS = {"fixed": ("Fixed", 20, 0, None, 15), "greedy": ("Greedy", 100, 0, 0.3, 15), "dp": ("DP", 20, 0, 0.3, 15)}
OBJECTS = {"fixed": ("Fixed", 100, 10, None, 15), "greedy": ("Greedy", 100, 10, 0.3, 15), "dp": ("DP", 20, 10, 0.3, 15)}


class Search:
    """stands for one of the binning algorithms: notes the options it is given"""

    def __init__(self, name, calls, data, data_effect, feature, axis_limits):
        self.name, self.calls = name, calls
        self.what = (data, data_effect, feature, axis_limits)
        self.limits = None

    def note(self, bins, min_points, discount, cat_limit):
        data, effect, feature, A = self.what
        self.calls.append(((self.name, bins, min_points, discount, cat_limit), self.what))
        if len(np.unique(data[:, feature])) == 1:
            self.limits = False
        else:
            self.limits = np.linspace(A[0, feature], A[1, feature], 4)
        return self.limits


class SearchFixed(Search):
    def find(self, nof_bins, min_points=10, cat_limit=10):
        return self.note(nof_bins, min_points, None, cat_limit)


class SearchGreedy(Search):
    def find(self, init_nof_bins=100, discount=0.3, min_points=10, cat_limit=10):
        return self.note(init_nof_bins, min_points, discount, cat_limit)


class SearchDP(Search):
    def find(self, max_nof_bins=30, min_points=10, discount=0.3, cat_limit=10):
        return self.note(max_nof_bins, min_points, discount, cat_limit)


def listen():
    calls = []
    intercept("effector.bin_splitting", "Fixed", lambda data, data_effect, feature, axis_limits: SearchFixed("Fixed", calls, data, data_effect, feature, axis_limits))
    intercept("effector.bin_splitting", "Greedy", lambda data, data_effect, feature, axis_limits: SearchGreedy("Greedy", calls, data, data_effect, feature, axis_limits))
    intercept("effector.bin_splitting", "DP", lambda data, data_effect, feature, axis_limits: SearchDP("DP", calls, data, data_effect, feature, axis_limits))
    return calls


def given(how):
    """(argument for fit, expected options)"""
    if how.startswith("str-"):
        return how[4:], STRINGS[how[4:]]
    if how.startswith("obj-"):
        return some(how[4:])
    mk, want = named(how)
    return mk(), want


def options(label, got, want):
    same(label + " algorithm", got[0] == want[0], True)
    for what, g, w in zip(["number of bins", "minimum", "discount", "categorical limit"], got[1:], want[1:]):
        if w is None:
            same(label + " " + what, g is None, True)
        else:
            same(label + " " + what, g, w)


def find(how):
    """find_limits hands the rows, effects, feature, limits and options to the algorithm"""
    N = dim("N", 1)
    X, E = array("X", (N, 3), owner="data"), array("E", (N, 3), owner="effects")
    A = np.array([np.min(X, axis=0), np.max(X, axis=0)])
    calls = listen()
    arg, want = given(how)
    est = bm.find_limits(X, E, 1, A, arg)
    same("searches", len(calls), 1)
    got, (data, effect, feature, limits) = calls[0]
    options("binning", got, want)
    same("data", data, X)
    same("effects", effect, E)
    same("feature", feature, 1)
    same("limits", limits, A)
    if len(np.unique(X[:, 1])) > 1:
        same("result", est.limits, np.linspace(A[0, 1], A[1, 1], 4))


def fit(method, how, feature=1, via="fit", axis="given"):
    """every (re)fit of ALE / RHALE bins the rows inside the axis limits with the options of the last fit"""
    N = dim("N", 2)
    X, E = array("X", (N, 3), owner="data"), array("E", (N, 3), owner="effects")
    ax = limits(axis)
    Z = inside(X, ax, feature)
    for j in range(3):
        if j == feature or via == "all":
            assume(len(np.unique(inside(X, ax, j)[:, j])) > 1)
    f, J = model("M", 3), jac("J", 3)
    m = {"ALE": lambda: effector.ALE(X, f, axis_limits=ax), "RHALE": lambda: effector.RHALE(X, f, J, axis_limits=ax),
         "RHALE-eff": lambda: effector.RHALE(X, f, None, axis_limits=ax, data_effect=E)}[method]()
    summarise_bins()
    calls = listen()
    xs = array("xs", (dim("T", 1),))
    if how == "default":
        want = ("Fixed", 20, 0, None, 15) if method == "ALE" else STRINGS["greedy"]
        if via == "fit":
            m.fit(feature)
        elif via == "eval":
            m.eval(feature, xs)
        elif via == "eval-centered":
            m.eval(feature, xs, centering="zero_start")
        else:
            m.plot(feature)
    else:
        arg, want = given(how)
        if via == "fit":
            m.fit(feature, binning_method=arg)
        elif via == "all":
            m.fit("all", arg)
        else:
            m.fit(feature, binning_method=arg, centering=False)
            if via == "eval":
                m.eval(feature, xs, centering="zero_start")
            elif via == "plot":
                m.plot(feature, centering=True)
    assert len(calls) > 0
    lo, hi = lims(X, ax, feature)
    mine = 0
    for got, (data, effect, j, A) in calls:
        options("binning", got, want)
        if j == feature:
            mine = mine + 1
            same("rows", data, Z)
            same("lower limit", A[0, feature], lo)
            same("upper limit", A[1, feature], hi)
            if method == "RHALE":
                same("effects", effect[:, feature], J(Z)[:, feature])
            elif method == "RHALE-eff":
                same("effects", effect[:, feature], inside_rows(E, X, ax, feature)[:, feature])
    holds("the feature is binned", mine > 0)


def inside_rows(E, X, ax, feature):
    if ax is None:
        return E
    return E[np.logical_and(X[:, feature] >= ax[0, feature], X[:, feature] <= ax[1, feature])]


PREP = {"fixed": OBJECTS["fixed"], "greedy": OBJECTS["greedy"], "dp": OBJECTS["dp"]}


def regional(method, how, feature=1, via="fit"):
    """the search for subregions and the effects of the subregions bin with the options of the regional fit"""
    N = dim("N", 4)
    X, E = array("X", (N, 3), owner="data"), array("E", (N, 3), owner="effects")
    f, J = model("M", 3), jac("J", 3)
    t = ["cont", "cont", "cont"]
    r = {"ALE": lambda: effector.RegionalALE(X, f, feature_types=t), "RHALE": lambda: effector.RegionalRHALE(X, f, J, feature_types=t),
         "RHALE-eff": lambda: effector.RegionalRHALE(X, f, None, E, feature_types=t)}[method]()
    summarise_bins()
    calls = listen()
    o = dict(max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[0], min_points_per_subregion=2, heter_small_enough=-1.0)
    if how == "default":
        want = ("Fixed", 20, 0, None, 15) if method == "ALE" else PREP["greedy"]
        r.fit(feature, **o)
    else:
        arg, want = given(how)
        if how.startswith("str-"):
            want = PREP[how[4:]]
        r.fit(feature, binning_method=arg, **o)
    if via == "eval":
        r.eval(feature, 0, array("xs", (dim("T", 1),)), centering="zero_start")
    elif via == "plot":
        r.plot(feature, 0, centering=True)
    for got, what in calls:
        options("binning", got, want)
    same("feature", calls[-1][1][2], feature)
