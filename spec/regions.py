"""Search for subregions: candidate splits, choice of the split, pruning, and the tree of subregions."""
import numpy as np
import effector
from effector.partitioning import Regions
from vspec import *

BIG = 1e8
NAMES = ["a", "b", "c"]


def world(jac, minp=None):
    """data, effects, and an arbitrary heterogeneity: large for small subsets, else a function of the rows"""
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects") if jac else None
    W = func("W")

    def heter(x, e=None):
        if minp is not None and x.shape[0] < minp:
            return BIG
        if jac:
            return np.sum(W(x[:, 0], x[:, 1], x[:, 2], e[:, 0], e[:, 1], e[:, 2]))
        return np.sum(W(x[:, 0], x[:, 1], x[:, 2]))
    return N, X, E, heter


def sides(x, typ, f, pos):
    if typ == "cat":
        return x[:, f] == pos, x[:, f] != pos
    return x[:, f] <= pos, x[:, f] > pos


def divide(x, e, typ, f, pos):
    a, b = sides(x, typ, f, pos)
    return [(x[a], None if e is None else e[a]), (x[b], None if e is None else e[b])]


def positions(X, f, typ, P):
    if typ == "cat":
        return np.unique(X[:, f])
    lo, hi = np.min(X[:, f]), np.max(X[:, f])
    return arr((P,), lambda k: lo + (k + 0.5) * ((hi - lo) / P))


def children(parts, typ, f, pos):
    out = []
    for x, e in parts:
        out = out + divide(x, e, typ, f, pos)
    return out


def score(parts, before, heter, typ, f, pos):
    """heterogeneities, sizes, population-weighted drop and heterogeneity after dividing every part"""
    ch = children(parts, typ, f, pos)
    h = [heter(x, e) for x, e in ch]
    n = [len(x) for x, e in ch]
    tot = 0
    for k in n:
        tot = tot + k + 1
    drop, after = 0, 0
    for k in range(len(ch)):
        w = (n[k] + 1) / tot
        drop = drop + w * (before[k // 2] - h[k])
        after = after + w * h[k]
    return h, n, drop, after


def best(X, parts, before, heter, foc, types, P):
    """the candidate with the largest weighted drop, the first one among equals"""
    where = [positions(X, f, types[f], P) for f in foc]
    C = max([len(w) for w in where])
    drops = np.ones((len(foc), C)) * -BIG
    after = np.ones((len(foc), C)) * -BIG
    for i, f in enumerate(foc):
        for j, pos in enumerate(where[i]):
            _, _, drops[i, j], after[i, j] = score(parts, before, heter, types[f], f, pos)
    k = np.argmax(drops)
    i, j = k // C, k % C
    return foc[i], where[i][j], drops[i, j], after[i, j]


def region(X, E, heter, feature, types, foc, levels, P, minp, thr=0.1, small=0.1, catlim=0, splitcat=False):
    return Regions(feature, heter, X, E, types, NAMES, "y", catlim, foc, minp, P, levels, thr, small, splitcat)


def kinds(typ):
    return [typ] * 3 if type(typ) is str else typ


def search(feature, jac, P, minp=None, foc="all", typ="cont", splitcat=False, catlim=0, levels=1):
    """every level divides all current parts at the candidate with the largest weighted drop"""
    N, X, E, heter = world(jac, minp)
    if minp is not None:
        assume(N >= minp)
    least = 2 if minp is None else minp
    types = kinds(typ)
    r = region(X, E, heter, feature, types, foc, levels, P, least, catlim=catlim, splitcat=splitcat)
    sp = r.search_all_splits()
    F = [f for f in range(3) if f != feature] if foc == "all" else foc
    root = heter(X, E)
    same("root heterogeneity", (sp[0]["heterogeneity"][0], sp[0]["weighted_heter"]), (root, root))
    same("root size", sp[0]["nof_instances"], [N])
    parts, before = [(X, E)], [root]
    found = 1
    for lev in range(levels):
        if any([len(x) < least for x, e in parts]):
            break
        f, pos, drop, after = best(X, parts, before, heter, F, types, P)
        h, n, *_ = score(parts, before, heter, types[f], f, pos)
        s = sp[lev + 1]
        same("split feature", s["feature"], f)
        same("split position", s["position"], pos)
        same("kind of split", 0 if s["type"] == "cat" else 1, np.array([0 if t == "cat" else 1 for t in types])[f])
        same("sizes", s["nof_instances"], n)
        same("heterogeneities", s["heterogeneity"], h)
        same("weighted heterogeneity", (s["weighted_heter_drop"], s["weighted_heter"]), (drop, after))
        parts, before = children(parts, types[f], f, pos), h
        found = lev + 2
    same("levels", len(sp), found)
    nowrite("data", "data")
    nowrite("effects", "effects")


def tree(feature, jac, levels, foc, typ="cont", catlim=0, splitcat=False, only=False, scaled=False, P=1):
    """the tree of subregions: every node holds exactly the rows of its parent on its side of the split"""
    N, X, E, heter = world(jac)
    types = kinds(typ)
    r = region(X, E, heter, feature, types, foc, levels, P, 0, thr=0.1, small=-1.0, catlim=catlim, splitcat=splitcat)
    r.search_all_splits()
    if only:
        r.choose_important_splits()
    sx = [own({"mean": real("m%d" % j), "std": pos("s%d" % j)}, "scale") for j in range(3)] if scaled else None
    t = r.splits_to_tree(only, sx)
    sp = r.important_splits if only else r.splits[1:]
    parts = [(X, E, NAMES[feature], heter(X, E))]
    at = 0
    for lev in range(levels + 1):
        if lev > len(sp):
            break
        if lev > 0:
            s = sp[lev - 1]
            f, at_ = s["feature"], s["position"]
            shown = at_ if sx is None else sx[f]["std"] * at_ + sx[f]["mean"]
            new = []
            for k, (x, e, name, h) in enumerate(parts):
                for side, (y, g) in enumerate(divide(x, e, types[f], f, at_)):
                    op = ("==", "!=")[side] if types[f] == "cat" else ("<=", " >")[side]
                    cond = NAMES[f] + " " + op + " " + str(np.round(shown, 2))
                    new.append((y, g, name + (" | " if lev == 1 else " and ") + cond, heter(y, g)))
            parts = new
        for x, e, name, h in parts:
            node = t.nodes[at]
            same("rows", node.data["data"], x)
            if jac:
                same("effects", node.data["data_effect"], e)
            same("size", node.nof_instances, len(x))
            same("weight", node.weight, len(x) / N)
            same("heterogeneity", node.heterogeneity, h)
            same("level", node.level, lev)
            same("name", node.name, name)
            at = at + 1
    same("number of nodes", len(t.nodes), at)
    nowrite("data", "data")
    nowrite("effects", "effects")
    nowrite("scale", "scale")


def prune(feature, jac, P=1, typ="cont", catlim=0, splitcat=False, minp=None, root=None):
    """a level is kept when it lowers the heterogeneity by more than the threshold; none when it is already small"""
    N, X, E, heter = world(jac, minp)
    if minp is not None:
        assume(N >= minp)
    least = 2 if minp is None else minp
    types = kinds(typ)
    thr, small = 0.1 * pos("thr"), 0.1 * pos("small")
    if root is not None:
        inner = heter

        def heter(x, e=None):
            if len(x) == N:
                return root
            return inner(x, e)
    foc = [f for f in range(3) if f != feature]
    r = region(X, E, heter, feature, types, foc, 1, P, least, thr=thr, small=small, catlim=catlim, splitcat=splitcat)
    sp = r.search_all_splits()
    kept = r.choose_important_splits()
    if types[feature] == "cat" and not splitcat:
        same("levels searched", len(sp), 0)
        same("levels kept", len(kept), 0)
        assert r.splits_to_tree(False) is None
        assert r.splits_to_tree(True) is None
        return
    before = heter(X, E)
    f, at, drop, after = best(X, [(X, E)], [before], heter, foc, types, P)
    keep = and_(before >= small, not_(before == BIG), (before - after) / before > thr)
    same("levels kept", len(kept), ite(keep, 1, 0))
    t = r.splits_to_tree(True)
    same("nodes", len(t.nodes), ite(keep, 3, 1))
    full = r.splits_to_tree(False)
    same("nodes of the full tree", len(full.nodes), 3)


def levels(depth, root="any"):
    """the kept levels are the leading ones that each lower the heterogeneity by more than the threshold"""
    N, X, E, heter = world(False)
    thr, small = 0.25 * pos("thr"), 0.1 * pos("small")
    r = region(X, E, heter, 1, ["cont"] * 3, [0, 2], 2, 1, 2, thr=thr, small=small)
    h = [pos("h%d" % k) for k in range(depth + 1)]
    if root == "large":
        h[0] = BIG
    if not (hasattr(r, "splits") and hasattr(r, "split_found")):
        undecided("splits are stored elsewhere")
    r.splits = [{"weighted_heter": h[k], "tag": k} for k in range(depth + 1)]
    r.split_found = True
    kept = r.choose_important_splits()
    ok = and_(h[0] >= small, not_(h[0] == BIG))
    n = 0
    for k in range(depth):
        ok = and_(ok, (h[k] - h[k + 1]) / h[k] > thr)
        n = n + ite(ok, 1, 0)
    same("levels kept", len(kept), n)
    for k in range(depth):
        if k >= n:
            break
        same("level", kept[k]["tag"], k + 1)


def given(jac, cuts, typ="cont"):
    """the tree of subregions for any sequence of splits"""
    N = dim("N", 4)
    X = array("X", (N, 3), owner="data")
    E = array("E", (N, 3), owner="effects") if jac else None
    types = kinds(typ)
    r = region(X, E, lambda x, e=None: 1.0, 1, types, [0, 2], 2, 1, 2)
    if not (hasattr(r, "splits") and hasattr(r, "split_found")):
        undecided("splits are stored elsewhere")
    at = [np.float64(real("at%d" % k)) for k in range(len(cuts))]
    parts = [(X, E)]
    all_ = [parts]
    splits = [dict(heterogeneity=[1.0], weighted_heter=1.0, nof_instances=[N], split_i=-1, split_j=-1, foc=[0, 2])]
    for k, f in enumerate(cuts):
        parts = children(parts, types[f], f, at[k])
        splits = splits + [dict(feature=f, position=at[k], range=[np.min(X[:, f]), np.max(X[:, f])], candidate_split_positions=[at[k]],
                                nof_instances=[len(x) for x, e in parts], type=types[f], heterogeneity=[1.0 + j for j in range(len(parts))],
                                split_i=0, split_j=0, foc=[0, 2], weighted_heter_drop=0.5, weighted_heter=1.0 / (k + 2))]
        all_ = all_ + [parts]
    r.splits = splits
    r.split_found = True
    t = r.splits_to_tree(False)
    i = 0
    for lev in range(len(all_)):
        for j, (x, e) in enumerate(all_[lev]):
            node = t.nodes[i]
            same("rows", node.data["data"], x)
            if jac:
                same("effects", node.data["data_effect"], e)
            same("size", node.nof_instances, len(x))
            same("weight", node.weight, len(x) / N)
            same("heterogeneity", node.heterogeneity, 1.0 + j if lev else 1.0)
            same("level", node.level, lev)
            i = i + 1
    same("number of nodes", len(t.nodes), i)
    nowrite("data", "data")
    nowrite("effects", "effects")
