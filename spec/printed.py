"""The statistics printed about the subregions of a feature."""
import numpy as np
import effector
from effector.partitioning import Regions
from vspec import *
from spec.regional import build
from spec.regions import world, region

NAMES = ["a", "b", "c"]


def numbers(lines):
    out = []
    for line in lines:
        out = out + fields(line)
    return out


def family(t, node):
    """the node and its descendants, depth first, children in order"""
    out = [node]
    for other in t.nodes:
        if other.parent_node is node:
            out = out + family(t, other)
    return out


def root(t):
    return [n for n in t.nodes if n.parent_node is None][0]


def deepest(t):
    return max([n.level for n in t.nodes])


def average(t, level):
    h = 0
    for n in t.nodes:
        if n.level == level:
            h = h + n.weight * n.heterogeneity
    return h


def per_level(t):
    """heterogeneity of every level, drop since the previous one and its percentage"""
    out = []
    for level in range(deepest(t) + 1):
        h = average(t, level)
        if level == 0:
            out = out + [0, h]
        else:
            out = out + [level, h, average(t, level - 1) - h, 100 * (average(t, level - 1) - h) / average(t, level - 1)]
    return out


def check(label, lines, want):
    got = numbers(lines)
    same(label + ": how many numbers", len(got), len(want))
    for k in range(len(want)):
        same(label + " %d" % k, got[k], want[k])


def tree(feature, depth, foc, only=False, scaled=False):
    """the printed tree and the statistics of its levels"""
    N, X, E, heter = world(False)
    r = region(X, E, heter, feature, ["cont"] * 3, foc, depth, 1, 0, thr=0.1, small=-1.0)
    r.search_all_splits()
    if only:
        r.choose_important_splits()
    sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)] if scaled else None
    t = r.splits_to_tree(only, sx)
    assume(len(t.nodes) == 2 ** (depth + 1) - 1)
    for level in range(deepest(t)):
        assume(average(t, level) > 0)
    k = mark()
    t.show_full_tree()
    want = []
    for n in family(t, root(t)):
        want = want + [n.idx] + cuts(n, sx) + [n.heterogeneity, n.nof_instances, n.weight]
    check("tree", printed(k), want)
    k = mark()
    t.show_level_stats()
    check("levels", printed(k), per_level(t))
    nowrite("data", "data")


def cuts(n, sx):
    """positions of the splits that lead to a node, as shown"""
    if n.parent_node is None:
        return []
    at = n.foc_position if sx is None else n.foc_position * sx[n.foc]["std"] + sx[n.foc]["mean"]
    return cuts(n.parent_node, sx) + [np.round(at, 2)]


def fit(method, feature, foc, depth, keep):
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    r = build(method, X, None, "all", feature_names=list(NAMES))
    r.fit(feature, max_depth=depth, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=foc, min_points_per_subregion=2,
          heter_small_enough=-1.0 if keep else np.inf, heter_pcg_drop_thres=-np.inf, centering=False, points_for_centering=30)
    return X, r


def deep(feature, foc, which):
    """a regional effect whose tree has two levels of splits, with arbitrary heterogeneities"""
    N, X, E, heter = world(False)
    _, r = fit("PDP", feature, foc[:1], 1, True)
    g = region(X, E, heter, feature, ["cont"] * 3, foc, 2, 1, 0, thr=0.1, small=-1.0)
    g.search_all_splits()
    key = "feature_" + str(feature)
    if not (hasattr(r, "tree_full") and hasattr(r, "tree_pruned") and key in r.tree_full):
        undecided("trees are stored elsewhere")
    if which == "full":
        r.tree_full[key] = g.splits_to_tree(False)
    else:
        r.tree_pruned[key] = g.splits_to_tree(False)
    return X, r


def chosen(r, feature, only):
    return (r.tree_pruned if only else r.tree_full)["feature_" + str(feature)]


def partitioning(method, feature, foc, depth, only=None, keep=True, scaled=False, how="int"):
    """show_partitioning prints the tree asked for: that of the kept splits, or of all of them"""
    if method == "any":
        X, r = deep(feature, foc, "full" if only is False else "kept")
    else:
        X, r = fit(method, feature, foc, depth, keep)
    t = chosen(r, feature, only is not False)
    assume(len(t.nodes) == (1 if only is not False and not keep else 2 ** (depth + 1) - 1))
    for level in range(deepest(t)):
        assume(average(t, level) > 0)
    kw = {} if only is None else {"only_important": only}
    sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)] if scaled else None
    if scaled:
        kw["scale_x_list"] = sx
    k = mark()
    r.show_partitioning(feature if how == "int" else [feature], **kw)
    want = []
    for n in family(t, root(t)):
        want = want + [n.idx] + cuts(n, sx) + [n.heterogeneity, n.nof_instances, n.weight]
    check("partitioning", printed(k), [feature] + want + [feature] + per_level(t))
    nowrite("data", "data")
    nowrite("scale", "scale")


def describe(method, feature, foc, depth, only=None, keep=True, scaled=False, how="int"):
    """describe_subregions prints, for every level, the split and the statistics before and after it"""
    if method == "any":
        X, r = deep(feature, foc, "full" if only is False else "kept")
    else:
        X, r = fit(method, feature, foc, depth, keep)
    t = chosen(r, feature, only is not False)
    assume(len(t.nodes) == (1 if only is not False and not keep else 2 ** (depth + 1) - 1))
    for level in range(deepest(t)):
        assume(average(t, level) > 0)
    kw = {} if only is None else {"only_important": only}
    sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)] if scaled else None
    if scaled:
        kw["scale_x_list"] = sx
    k = mark()
    r.describe_subregions(feature if how == "int" else [feature], **kw)
    want = []
    if deepest(t) == 0 and only is not False:
        want = [feature]
    for level in range(1, deepest(t) + 1):
        nodes = [n for n in t.nodes if n.level == level]
        before = [n for n in t.nodes if n.level == level - 1]
        f, at = nodes[0].foc, nodes[0].foc_position
        if sx is not None:
            at = at * sx[f]["std"] + sx[f]["mean"]
        a, b = average(t, level - 1), average(t, level)
        want = want + [at, a, b, a - b, (a - b) / a * 100] + [n.nof_instances for n in before] + [n.nof_instances for n in nodes]
    check("description", printed(k), want)
    nowrite("data", "data")
    nowrite("scale", "scale")


def none(method, scaled, only, feature=1):
    """a feature without subregions (a categorical one) prints no statistics, and does not disturb the others"""
    from spec.reject import flat_effects
    flat_effects()
    X = np.array([[1.0 * i, real("a%d" % i), real("b%d" % i)] for i in range(4)])
    r = build(method, X, None, "all", np.ones((4, 3)), types=("cont", "cat", "cont"))
    o = dict(max_depth=1, nof_candidate_splits_for_numerical=1, candidate_conditioning_features=[0], min_points_per_subregion=2, heter_small_enough=-1.0, heter_pcg_drop_thres=-0.5)
    r.fit(feature, **o)
    r.fit(2, **o)
    sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)] if scaled else None
    k = mark()
    r.describe_subregions(feature, only_important=only, scale_x_list=sx)
    holds("nothing is described", len(printed(k)) == 0)
    k = mark()
    r.show_partitioning(feature, only_important=only, scale_x_list=sx)
    for x in numbers(printed(k)):
        same("number printed", x, feature)
    parts = []
    for j in [feature, 2]:
        k = mark()
        r.show_partitioning(j, only_important=only, scale_x_list=sx)
        parts = parts + printed(k)
    k = mark()
    r.show_partitioning([feature, 2], only_important=only, scale_x_list=sx)
    same("both features", printed(k), parts)
    k = mark()
    r.describe_subregions(2, only_important=only, scale_x_list=sx)
    want = printed(k)
    k = mark()
    r.describe_subregions([feature, 2], only_important=only, scale_x_list=sx)
    same("both described", printed(k), want)
