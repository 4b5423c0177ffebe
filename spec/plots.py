"""What the plots of the global methods show."""
import numpy as np
import effector
import shap
from effector.binning_methods import Fixed
from vspec import *
from spec.common import build, fit, populated
from spec.pdp import inside, lims, limits

SAME = {"set_xlabel": "xlabel", "set_ylabel": "ylabel", "set_ylim": "ylim", "set_title": "title"}


class Picture:
    """the calls that draw something, whatever their order"""

    def __init__(self, calls):
        self.calls = []
        for path, args, kw in calls:
            parts = path.split(".")
            axes, what = parts[0], parts[-1]
            self.calls.append((axes, SAME.get(what, what), args, kw))

    def all(self, what):
        return [c for c in self.calls if c[1] == what]


def arg(call, k, name, default=None):
    axes, what, args, kw = call
    if name in kw:
        return kw[name]
    return args[k] if k < len(args) else default


def one(pic, what):
    found = pic.all(what)
    holds("%s drawn" % what, len(found) == 1)
    return found[0]


def none(pic, what):
    holds("no %s" % what, len(pic.all(what)) == 0)


def curve(pic, label, x, y):
    """the line with this word in its label"""
    found = [c for c in pic.all("plot") if label in str(arg(c, 9, "label", ""))]
    holds("%s drawn" % label, len(found) == 1)
    same(label + " x", arg(found[0], 0, "x"), x)
    same(label + " y", arg(found[0], 1, "y"), y)


def band(pic, x, y, d):
    c = one(pic, "fill_between")
    same("band x", arg(c, 0, "x"), x)
    same("band lower", arg(c, 1, "y1"), y - d)
    same("band upper", arg(c, 2, "y2"), y + d)


def scales(scale):
    sx = own({"mean": real("mx"), "std": pos("sx")}, "scale_x") if scale in ["x", "both"] else None
    sy = own({"mean": real("my"), "std": pos("sy")}, "scale_y") if scale in ["y", "both"] else None
    return sx, sy


def affine(v, s):
    return v if s is None else v * s["std"] + s["mean"]


def width(v, s):
    return v if s is None else v * s["std"]


def slope(v, sx, sy):
    return v * (1.0 if sy is None else sy["std"]) / (1.0 if sx is None else sx["std"])


def dressing(pic, X, feature, avg, given, sy, names, target, ylim, derivative=False):
    """average output, names and limits"""
    if avg:
        a = given if given is not None else np.mean(model("M", 3)(X))
        same("average output", arg(one(pic, "axhline"), 0, "y"), affine(a, sy))
    else:
        none(pic, "axhline")
    same("x name", [arg(c, 0, "xlabel") for c in pic.all("xlabel")], ["x_%d" % feature if names is None else names[feature]])
    ys = [arg(c, 0, "ylabel") for c in pic.all("ylabel")]
    if derivative:
        same("y name", ys, ["dy/dx"])
    else:
        holds("y name", ("y" if target is None else target) in ys)


def ranges(pic, want):
    got = []
    for c in pic.all("ylim"):
        lo, hi = arg(c, 0, "bottom"), arg(c, 1, "top")
        if hi is None:
            lo, hi = lo
        got.append((lo, hi))
    holds("number of y ranges", len(got) == len(want))
    for g in want:
        if len(want) == 1:
            same("y range", got[0], g)


def world(method, feature, axis, avg, given, names, target):
    N = dim("N", 3)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects")
    ax = limits(axis)
    populated(None, method, feature, X, ax)
    kw = {}
    if given:
        kw["avg_output"] = real("average")
    if names:
        kw["feature_names"] = ["alpha", "beta", "gamma"]
    if target:
        kw["target_name"] = "target"
    return X, E, ax, build(method, X, ax, "all", E, **kw), build(method, X, ax, "all", E)


NAMES = ["alpha", "beta", "gamma"]


def picture(m, X, feature, o, avg, given, scale, names, target, ylim, derivative=False, **more):
    sx, sy = scales(scale)
    if ylim:
        o["y_limits"] = [real("ylo"), real("yhi")]
    k = mark()
    m.plot(feature, scale_x=sx, scale_y=sy, show_avg_output=avg, **o)
    pic = Picture(draws(k))
    dressing(pic, X, feature, avg, real("average") if given else None, sy, NAMES if names else None, "target" if target else None, ylim, derivative)
    nowrite("data", "data")
    nowrite("scales", "scale_x")
    nowrite("scales", "scale_y")
    return pic, sx, sy


def pdp(method, feature, heter, centering, scale, avg=False, given=False, axis="given", names=False, target=False, ylim=False, points=30, vect=True, nof_ice="all"):
    """mean of the curves of the instances over the axis limits, with a band or the curves themselves"""
    X, E, ax, m, b = world(method, feature, axis, avg, given, names, target)
    o = dict(heterogeneity=heter, centering=centering, use_vectorized=vect)
    if points != 30:
        o["nof_points"] = points
    if nof_ice != "all":
        o["nof_ice"] = nof_ice
    m.fit(feature, centering=centering)
    e = mark()
    pic, sx, sy = picture(m, X, feature, o, avg, given, scale, names, target, ylim, method != "PDP")
    b.fit(feature, centering=centering)
    lo, hi = lims(X, ax, feature)
    x = np.linspace(lo, hi, points)
    yy = b.eval(feature, x, centering=centering, return_all=True)
    if method == "PDP":
        yy = affine(yy, sy)
    else:
        yy = slope(yy, sx, sy)
    x = affine(x, sx)
    y, sd = np.mean(yy, axis=1), np.std(yy, axis=1)
    word = "PDP" if method == "PDP" else "d-PDP"
    curve(pic, word, x, y)
    if heter in [True, "std"]:
        band(pic, x, y, sd)
    elif heter == "std_err":
        band(pic, x, y, sd / np.sqrt(yy.shape[1]))
    else:
        none(pic, "fill_between")
    others = [c for c in pic.all("plot") if word not in str(arg(c, 9, "label", ""))]
    if heter == "ice":
        many = [c for c in others if len(arg(c, 1, "y").shape) == 2]
        if len(many) != 1:
            undecided("curves of the instances are not drawn by one call")
        same("curves x", arg(many[0], 0, "x"), x)
        got = arg(many[0], 1, "y")
        if nof_ice == "all" or nof_ice >= yy.shape[1]:
            picked = [d for d in events("rng", e)]
            if len(picked) == 0:
                same("curves y", got, yy)
        else:
            picked = [d for d in events("rng", e)]
            holds("curves chosen at random", len(picked) == 1)
            what, n, size, replace = picked[0]
            same("curves chosen among", n, yy.shape[1])
            same("number of curves chosen", size, nof_ice)
            holds("curves are distinct", replace is False)
            same("curves y", got, yy[:, sampled(1, yy.shape[1], nof_ice)])
    else:
        holds("no other curve", len(others) == 0)
    ranges(pic, [(real("ylo"), real("yhi"))] if ylim else [])


def ale(method, feature, heter, centering, scale, avg=False, given=False, axis="given", names=False, target=False, ylim=False, dylim=False, bins="even"):
    """the accumulated effect over the range of the bins, and the effect of each bin"""
    X, E, ax, m, b = world(method, feature, axis, avg, given, names, target)
    K = dim("K", 1)
    lo, hi = lims(X, ax, feature)
    L = np.linspace(lo, hi, K + 1)
    if bins == "uneven":
        K = 3
        U = np.array([lo, lo + (hi - lo) / 8, lo + (hi - lo) / 2, hi])
        L = U

        def find(self, *args, **kw):
            self.limits = U
            return U
        for kind in ["Fixed", "Greedy", "DP"]:
            intercept("effector.bin_splitting", kind + ".find", find)
    eff, var = array("eff", (K,)), array("var", (K,), kind="pos")
    intercept("effector.utils", "compute_ale_params", lambda xs, df_dxs, limits: {
        "limits": limits, "dx": limits[1:] - limits[:-1], "points_per_bin": array("cnt", (K,), kind="pos"),
        "bin_effect": eff, "bin_variance": var, "bin_estimator_variance": var})
    acc = func("accumulate")
    intercept("effector.utils", "compute_accumulated_effect", lambda x, limits, bin_effect, dx, square=False: arr((x.shape[0],), lambda i: acc(x[i], limits, bin_effect, dx)))
    o = dict(heterogeneity=heter, centering=centering)
    if dylim:
        o["dy_limits"] = [real("dlo"), real("dhi")]
    fit(m, method, feature, centering)
    pic, sx, sy = picture(m, X, feature, o, avg, given, scale, names, target, ylim)
    fit(b, method, feature, centering)
    x = np.linspace(lo, hi, 1000)
    y = affine(b.eval(feature, x, centering=centering), sy)
    curve(pic, "average effect", affine(x, sx), y)
    c = one(pic, "bar")
    same("bar centers", arg(c, 0, "x"), affine((L[:-1] + L[1:]) / 2, sx))
    same("bar heights", arg(c, 1, "height"), slope(eff, sx, sy))
    same("bar widths", arg(c, 2, "width"), width(L[1:] - L[:-1], sx))
    err = arg(c, 99, "yerr")
    if heter is False:
        holds("no error bars", err is None)
    else:
        same("error bars", err, slope(np.sqrt(var), sx, sy))
    want = ([(real("ylo"), real("yhi"))] if ylim else []) + ([(real("dlo"), real("dhi"))] if dylim else [])
    ranges(pic, want)


def shapdp(feature, heter, centering, scale, avg=False, given=False, axis="given", names=False, target=False, ylim=False, points=30, some="all"):
    """the fitted curve over the axis limits, with a band or the attributions themselves"""
    method = "ShapDP"
    X, E, ax, m, b = world(method, feature, axis, avg, given, names, target)
    o = dict(heterogeneity=heter, centering=centering)
    if points != 30:
        o["nof_points"] = points
    if some != "all":
        o["nof_shap_values"] = some
    m.fit(feature, centering=centering)
    e = mark()
    pic, sx, sy = picture(m, X, feature, o, avg, given, scale, names, target, ylim)
    b.fit(feature, centering=centering)
    lo, hi = lims(X, ax, feature)
    x = np.linspace(lo, hi, points)
    y, sd = b.eval(feature, x, heterogeneity=True, centering=centering)
    xs, ys = affine(x, sx), affine(y, sy)
    curve(pic, "SHAP curve", xs, ys)
    if heter in [True, "std"]:
        band(pic, xs, ys, width(sd, sy))
    else:
        none(pic, "fill_between")
    others = [c for c in pic.all("plot") if "SHAP curve" not in str(arg(c, 9, "label", ""))]
    if heter == "shap_values":
        from spec.shapdp import curve as pairs, reference
        px, py, mean, std = pairs(X, ax, feature)
        if centering is not False:
            py = py - reference(mean, lo, hi, centering, 100)
        many = [c for c in others if len(np.shape(arg(c, 0, "x"))) == 1]
        if len(many) != 1:
            undecided("the attributions are not drawn by one call")
        if some != "all" and some < len(px):
            ind = sampled(1, len(px), some)
            px, py = px[ind], py[ind]
        same("values", arg(many[0], 0, "x"), affine(px, sx))
        same("attributions", arg(many[0], 1, "y"), affine(py, sy))
    else:
        holds("no other points", len(others) == 0)
    ranges(pic, [(real("ylo"), real("yhi"))] if ylim else [])
