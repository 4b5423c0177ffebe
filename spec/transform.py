"""DataTransformer: one masked copy of a feature per subregion."""
import numpy as np
from effector.partitioning import DataTransformer
from vspec import *


def split(k, feature, typ):
    return {"feature": feature, "type": typ, "position": real("cut%d" % k)}


def transform(shape, order=(0, 1, 2), kind="real", twice=False):
    """shape: per feature the list of (conditioning feature, type) of its splits"""
    N = dim("N", 1)
    X = array("X", (N, 3), kind=kind, owner="data")
    k, splits = 0, []
    for s in shape:
        mine = []
        for f, typ in s:
            mine.append(split(k, f, typ))
            k = k + 1
        splits.append(mine)
    table = {}
    for j in order:
        table["feat_%d" % j] = own(splits[j], "splits")
    t = DataTransformer(own(table, "splits"))
    got = t.transform(X)
    if twice:
        Y = array("Y", (dim("Q", 1), 3), owner="data")
        t.transform(Y)
        got = t.transform(X)
    want, names = [], []
    for j in range(3):
        cells = [(np.ones(N) > 0, [])]
        for s in splits[j]:
            x, p, f = X[:, s["feature"]], s["position"], s["feature"]
            more = []
            for m, words in cells:
                if s["type"] == "cat":
                    more.append((np.logical_and(m, x == p), words + ["x%d=%s" % (f, "{:.2f}".format(p))]))
                    more.append((np.logical_and(m, x != p), words + ["x%d!=%s" % (f, "{:.2f}".format(p))]))
                else:
                    more.append((np.logical_and(m, x <= p), words + ["x%d<=%s" % (f, "{:.2f}".format(p))]))
                    more.append((np.logical_and(m, x > p), words + ["x%d>%s" % (f, "{:.2f}".format(p))]))
            cells = more
        total = np.zeros(N)
        for m, words in cells:
            want.append(np.where(m, X[:, j], 0))
            total = total + got[:, len(want) - 1]
            names.append("x%d" % j if len(words) == 0 else "x%d | %s" % (j, " & ".join(words)))
        same("every row is in one copy of feature %d" % j, total, X[:, j])
    same("number of columns", got.shape[1], len(want))
    for c in range(len(want)):
        same("column %d" % c, got[:, c], want[c])
        same("name %d" % c, t.new_names[c], names[c])
    nowrite("data", "data")
    nowrite("splits", "splits")
