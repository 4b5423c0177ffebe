"""Expensive calls: the model, its Jacobian and SHAP are called when fitting, not again for every look at the result."""
import numpy as np
import effector
from vspec import *
from spec.common import build, fit, populated, summarise_bins
from spec.history import start


def none(label, k):
    holds(label + ": no call of the model", len(events("model", k)) == 0)
    holds(label + ": no SHAP computation", len(events("shap", k)) == 0)


def looks(method, feature=1, other=0, centering=True):
    """evaluating and plotting a fitted effect again and again"""
    if method == "ALE" or method.startswith("RHALE"):
        summarise_bins()
    X, E, ax, xs = start(method, feature, other)
    m = build(method, X, ax, "all", E)
    fit(m, method, feature, centering)
    fit(m, method, other, centering)
    k = mark()
    m.eval(feature, xs, heterogeneity=True, centering=centering)
    m.eval(feature, xs, heterogeneity=False, centering=False)
    m.eval(other, xs, heterogeneity=True, centering=centering)
    none("eval", k)
    k = mark()
    m.plot(feature, heterogeneity=True, centering=centering)
    m.plot(other, heterogeneity=False, centering=False)
    none("plot", k)


def effects(feature=1, other=0, given=True):
    """the instance effects of RHALE: taken from the caller, or computed once"""
    summarise_bins()
    method = "RHALE-both" if given == "both" else "RHALE-eff" if given else "RHALE"
    X, E, ax, xs = start(method, feature, other)
    k = mark()
    m = build(method, X, ax, "all", E, avg_output=real("avg"))
    fit(m, method, feature, True)
    fit(m, method, other, "zero_start")
    fit(m, method, feature, False)
    m.eval(feature, xs, heterogeneity=True, centering="zero_start")
    m.eval(other, xs, centering=True)
    m.plot(other, heterogeneity=True, centering=True)
    holds("calls of the model or its Jacobian", len(events("model", k)) == (0 if given else 1))


def average(method, given):
    """the average output is the caller's, or computed once"""
    X, E, ax, xs = start(method, 1, 0)
    k = mark()
    avg = real("avg")
    f = model("M", 3)
    if method == "ALE":
        m = effector.ALE(X, f, axis_limits=ax, avg_output=avg if given else None)
    elif method == "PDP":
        m = effector.PDP(X, f, axis_limits=ax, nof_instances="all", avg_output=avg if given else None)
    else:
        m = effector.ShapDP(X, f, axis_limits=ax, nof_instances="all", avg_output=avg if given else None)
    same("average output", m.avg_output, avg if given else np.mean(f(X)))
    if given:
        holds("calls of the model", len(events("model", k)) == 0)
