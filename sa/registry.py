"""Which scenarios decide which property, over which option grid."""
import itertools

ASSUMPTIONS = [
    "Real-number semantics for arithmetic (no rounding); comparisons never involve NaN unless a NaN constant or fill reaches them.",
    "The model, the Jacobian, SHAP and the spline fit are row-wise deterministic functions, uninterpreted.",
    "numpy, scipy, matplotlib and shap follow the semantics modelled in sa/npmodel.py, sa/npfuncs.py and sa/pylib.py.",
    "The number of features is 3; numbers of instances and evaluation points are symbolic unless a scenario fixes them.",
    "A non-congruent pair of value graphs is reported only when a valuation of the inputs separates them.",
]

RULES = {}
CASES = {}


def prop(pid, rule):
    RULES[pid] = rule
    CASES.setdefault(pid, [])


def case(pid, file, func, quick=None, thorough=None, **opt):
    """grids: dict name -> list of values"""
    CASES[pid].append((file, func, quick or {}, thorough if thorough is not None else (quick or {}), opt))


def expand(g):
    if isinstance(g, list):
        return [x for y in g for x in expand(y)]
    ks = list(g)
    return [dict(zip(ks, vs)) for vs in itertools.product(*[g[k] for k in ks])]


def cases(pid, tier):
    if pid not in CASES:
        raise SystemExit("unknown property " + pid)
    out = []
    for file, func, q, t, opt in CASES[pid]:
        for kw in expand(t if tier == "thorough" else q):
            c = dict(file=file, func=func, kw=kw)
            c.update(opt)
            if tier == "thorough":
                c["nval"] = opt.get("nval", 24) * 4
                c["timeout"] = opt.get("timeout", 240) * 3
                c["budget"] = 180
            out.append(c)
    return out


BOTH = [True, False]
FEATS = [0, 1, 2]

HET = [True, False]
PDPS = ["PDP", "d-PDP", "d-PDP-num"]

prop("P01", "PDP and d-PDP evaluation equals, for every instance inside the axis limits, the model (derivative) with only the feature of interest replaced; mean and std over instances.")
case("P01", "pdp", "eval_uncentered",
     [{"cls": PDPS, "feature": [1], "heter": HET, "vect": BOTH},
      {"cls": PDPS, "feature": [0, 2], "heter": [True], "vect": BOTH, "axis": ["given"]},
      {"cls": ["PDP", "d-PDP"], "feature": [1], "heter": [True], "vect": BOTH, "kind": ["int"]},
      {"cls": PDPS, "feature": [1], "heter": [True], "vect": BOTH, "xkind": ["int"]}],
     {"cls": PDPS, "feature": FEATS, "heter": HET, "vect": BOTH, "axis": ["data", "given"], "kind": ["real", "int"], "xkind": ["real", "int"]})
case("P01", "pdp", "functions",
     [{"n": ["vec", "non"], "feature": [1], "heter": HET, "jacobian": ["no", "yes", "num"]},
      {"n": ["vec", "non"], "feature": [2], "heter": [True], "jacobian": ["no"], "kind": ["int"]},
      {"n": ["vec", "non"], "feature": [1], "heter": [True], "jacobian": ["no", "yes", "num"], "xkind": ["int"]}],
     {"n": ["vec", "non"], "feature": FEATS, "heter": HET, "jacobian": ["no", "yes", "num"], "kind": ["real", "int"], "xkind": ["real", "int"]})
case("P01", "pdp", "functions_nd",
     {"n": ["vec", "non"], "features": [[0, 2], [1], [2, 0]], "heter": HET, "kind": ["real", "int"], "xkind": ["real", "int"]})

prop("P02", "Centred results are the uncentred curves minus the reference value of the requested mode.")
case("P02", "pdp", "eval_centered",
     [{"cls": PDPS, "feature": [1], "centering": [True, "zero_start", "zero_integral"], "fitc": ["none", True, "zero_start", False]},
      {"cls": ["PDP", "d-PDP"], "feature": [2], "centering": [False], "fitc": ["none", True, "zero_start"]},
      {"cls": ["PDP"], "feature": [0], "centering": [True, "zero_start"], "fitc": [True, "zero_start"], "points": [30], "axis": ["given"], "vect": BOTH}],
     {"cls": PDPS, "feature": FEATS, "centering": [False, True, "zero_start", "zero_integral"], "fitc": ["none", False, True, "zero_start", "zero_integral"], "points": [None, 30], "axis": ["data", "given"], "vect": BOTH})

CEN = [True, "zero_start", "zero_integral", False]
case("P02", "shapdp", "shapdp",
     [{"feature": [1], "centering": [True, "zero_start", "zero_integral", False], "fitc": ["none", False, "zero_start", True], "heter": [False]},
      {"feature": [2], "centering": [True], "fitc": [False, "zero_start"], "heter": [True], "points": [30]}],
     {"feature": FEATS, "centering": CEN, "fitc": ["none"] + CEN, "heter": HET, "points": [None, 30], "axis": ["given", "data"]})
case("P02", "ale", "ale",
     [{"method": ["ALE", "RHALE"], "feature": [1], "centering": [True, "zero_start"], "fitc": [False], "heter": [False], "how": ["uniform"]},
      {"method": ["ALE", "RHALE"], "feature": [1], "centering": [True, "zero_start"], "heter": [False], "how": ["wide"]},
      {"method": ["RHALE"], "feature": [2], "centering": [False, "zero_integral"], "fitc": [True, "zero_start"], "heter": [False], "how": ["uniform"]}],
     {"method": ["ALE", "RHALE"], "feature": FEATS, "centering": CEN, "fitc": CEN, "heter": [False], "how": ["uniform"], "axis": ["given", "data"]})

prop("P04", "ALE: bins, local effects, bin means and variances, and accumulated effect.")
case("P04", "ale", "ale",
     [{"method": ["ALE", "RHALE"], "feature": [1], "centering": [False, "zero_start"], "heter": [True], "how": ["uniform", "any"]},
      {"method": ["ALE", "RHALE"], "feature": [2], "centering": [False], "heter": [True], "how": ["any"], "axis": ["data"]},
      {"method": ["ALE", "RHALE"], "feature": [1], "centering": [False], "heter": [True], "how": ["wide"]},
      {"method": ["ALE", "RHALE"], "feature": [0], "centering": [False], "heter": [True], "how": ["any"], "kind": ["int"]},
      {"method": ["RHALE-eff", "RHALE-num", "RHALE-both"], "feature": [0], "centering": [False], "heter": [True], "how": ["any"]}],
     {"method": ["ALE", "RHALE", "RHALE-eff", "RHALE-num"], "feature": FEATS, "centering": [False, "zero_start", True], "heter": HET, "how": ["uniform", "any"], "axis": ["given", "data"], "kind": ["real", "int"]}, cap=10 ** 9, rounding=True)

case("P04", "ale", "filling", {"K": [3, 5, 6, 7]}, {"K": [3, 4, 5, 6, 7, 8, 9]}, nval=60)
case("P04", "ale", "statistics", {})
prop("P05", "SHAP dependence: spline through the (value, attribution) pairs.")
case("P05", "shapdp", "shapdp", {"feature": [1], "centering": [False, True, "zero_start"], "fitc": ["none", False, "zero_start", True], "heter": [True]})

METHODS = ["PDP", "d-PDP", "d-PDP-num", "ALE", "RHALE", "RHALE-eff", "RHALE-num", "ShapDP"]
prop("P06", "Subsampling and alignment of rows.")
case("P06", "rows", "subsample", {"method": METHODS, "feature": [1], "size": ["all", "smaller", "larger"]})
case("P06", "rows", "index", {"kind": ["H", "REPID"], "size": ["all", "smaller", "larger"]})
case("P06", "rows", "within", {"method": METHODS, "feature": [1], "centering": ["zero_start"]}, {"method": METHODS, "feature": FEATS, "centering": [False, True, "zero_start"]})

ALES = ["ALE", "RHALE", "RHALE-eff", "RHALE-num"]
LIGHT = ["PDP", "d-PDP", "d-PDP-num", "ShapDP"]
SEQ = ["zero_start", True, False, "zero_start"]
prop("P03", "Results do not depend on the history of other calls.")
case("P03", "history", "other_features", {"method": METHODS, "feature": [1], "other": [0], "centering": ["zero_start"], "order": ["before", "after"]})
case("P03", "history", "recentre",
     [{"method": LIGHT, "feature": [1], "seq": [SEQ], "fitc": [False, True]},
      {"method": ["ALE", "RHALE", "RHALE-eff"], "feature": [1], "seq": [["zero_start", True, False]], "fitc": [False]}],
     {"method": METHODS, "feature": [1, 2], "seq": [SEQ], "fitc": [False, True]})
case("P03", "history", "lastfit", {"method": METHODS, "feature": [1], "c1": [True], "c2": [False], "cfg": [True]})
case("P03", "history", "lastfit", {"method": METHODS, "feature": [1], "c1": [True, "zero_start"], "c2": [True], "cfg": [True], "summary": [True]})
case("P03", "history", "together",
     [{"method": LIGHT, "how": ["all", [2, 0]], "centering": ["zero_start"]}, {"method": ["ALE", "RHALE"], "how": [[2, 0]], "centering": ["zero_start"]}],
     {"method": METHODS, "how": ["all", [2, 0]], "centering": ["zero_start", True]})
case("P03", "history", "plotting",
     [{"method": METHODS, "feature": [1], "het": [True], "centering": [True]}, {"method": LIGHT, "feature": [1], "het": [True], "centering": [False]}],
     {"method": METHODS, "feature": [1, 0], "het": [True, False], "centering": [True, False, "zero_start"]})

MIX = ["cont", "cat", "cont"]
case("P03", "history", "regional_other", {"method": ["PDP", "d-PDP", "ALE", "RHALE", "ShapDP"], "order": ["before", "after", "again"]})

case("P03", "history", "two", {"method": METHODS, "feature": [1], "centering": [True, "zero_start"], "order": ["made before", "made between", "made after"]})
prop("P10", "The rows of the children are those of the parent on either side of the split.")
case("P10", "regions", "tree",
     [{"feature": [0, 1, 2], "jac": BOTH, "levels": [1], "foc": ["all"]},
      {"feature": [1], "jac": BOTH, "levels": [2], "foc": ["all", [2, 0]], "scaled": BOTH},
      {"feature": [0], "jac": BOTH, "levels": [1, 2], "foc": ["all"], "typ": [MIX], "catlim": [3], "scaled": BOTH},
      {"feature": [2], "jac": [True], "levels": [1], "foc": [[0]], "typ": ["cat"], "catlim": [3], "splitcat": [True], "scaled": [True]}],
     [{"feature": [0, 1, 2], "jac": BOTH, "levels": [1, 2], "foc": ["all"], "scaled": BOTH, "P": [1, 2], "only": BOTH},
      {"feature": [0, 2], "jac": BOTH, "levels": [1, 2], "foc": ["all", [1]], "typ": [MIX], "catlim": [3], "scaled": BOTH}])
case("P10", "regions", "given",
     [{"jac": BOTH, "cuts": [[0], [0, 2], [2, 0, 2], [2, 0, 1]], "typ": ["cont", "cat"]}],
     [{"jac": BOTH, "cuts": [[0], [0, 2], [2, 2], [2, 0, 2], [2, 0, 1], [0, 0, 0, 2]], "typ": ["cont", "cat", MIX]}])
prop("P11", "Every level divides all parts at the candidate split with the largest population-weighted heterogeneity drop.")
case("P11", "regions", "search",
     [{"feature": FEATS, "jac": BOTH, "P": [2], "minp": [None, 5]},
      {"feature": [1], "jac": [False], "P": [3], "foc": [[2, 0], [0]]},
      {"feature": [0], "jac": [False], "P": [2], "typ": [MIX], "catlim": [3]},
      {"feature": [0], "jac": [True], "P": [1], "typ": ["cat"], "catlim": [3], "splitcat": [True]},
      {"feature": [1], "jac": BOTH, "P": [1], "levels": [2]},
      {"feature": [1], "jac": [False], "P": [1], "levels": [2], "minp": [5]}],
     [{"feature": FEATS, "jac": BOTH, "P": [2, 3, 4], "minp": [None, 5]},
      {"feature": FEATS, "jac": BOTH, "P": [3], "foc": [[2, 0], [0, 2]]},
      {"feature": FEATS, "jac": BOTH, "P": [2], "typ": [MIX, "cat"], "catlim": [3, 10], "splitcat": [True]},
      {"feature": FEATS, "jac": BOTH, "P": [1, 2], "levels": [2], "minp": [None, 5]}])
prop("P12", "A level is kept while it lowers the heterogeneity by more than the threshold; none when it is already small.")
case("P12", "regions", "prune",
     [{"feature": [1], "jac": BOTH, "P": [1, 2], "minp": [None, 5]},
      {"feature": [0], "jac": [False], "root": [1e8, 1e7]},
      {"feature": [0], "jac": BOTH, "typ": ["cat", ["cat", "cont", "cont"]], "catlim": [3], "splitcat": BOTH}],
     [{"feature": FEATS, "jac": BOTH, "P": [1, 2, 3], "minp": [None, 5]},
      {"feature": FEATS, "jac": [False], "root": [1e8, 1e7]},
      {"feature": FEATS, "jac": BOTH, "typ": ["cat", ["cat", "cont", "cont"]], "catlim": [3], "splitcat": BOTH}])
case("P12", "regions", "levels", [{"depth": [1, 2, 3, 4]}, {"depth": [2], "root": ["large"]}], [{"depth": [1, 2, 3, 4, 5]}, {"depth": [1, 2, 3], "root": ["large"]}], nval=120)
case("P12", "regions", "tree",
     [{"feature": [1], "jac": [False], "levels": [1], "foc": ["all"], "only": [True], "scaled": BOTH}],
     [{"feature": FEATS, "jac": BOTH, "levels": [1], "foc": ["all"], "only": [True], "scaled": BOTH, "P": [1, 2]}])

RMETHODS = ["PDP", "d-PDP", "ALE", "RHALE", "RHALE-eff", "ShapDP"]
prop("P13", "Evaluating or plotting a subregion is evaluating or plotting the global method on its rows, as configured.")
case("P13", "regional", "evaluate",
     [{"method": RMETHODS, "feature": [1], "other": [2], "node": [0, 1, 2], "fitc": [False], "centering": [False, "zero_start"], "heter": [True]},
      {"method": RMETHODS, "feature": [0], "other": [1], "node": [1], "fitc": [True], "centering": [True], "heter": BOTH, "axis": ["given"]},
      {"method": RMETHODS, "feature": [2], "other": [0], "node": [2], "fitc": [False], "centering": [False], "heter": [False], "axis": ["given"]},
      {"method": RMETHODS, "feature": [1], "other": [0], "node": [1], "centering": [False], "size": ["smaller"]}],
     {"method": RMETHODS, "feature": FEATS[:2], "other": [2], "node": [0, 1, 2], "fitc": [False, True, "zero_start"], "centering": [False, True, "zero_start"], "heter": BOTH, "axis": ["data", "given"]})
case("P13", "regional", "plots",
     [{"method": RMETHODS, "feature": [1], "other": [2], "node": [1], "heter": [True]},
      {"method": RMETHODS, "feature": [0], "other": [1], "node": [2], "heter": [False], "axis": ["given"], "centering": [True], "names": [["a", "b", "c"]], "target": ["t"], "scaled": [True]}],
     {"method": RMETHODS, "feature": FEATS[:2], "other": [2], "node": [0, 1, 2], "heter": BOTH, "axis": ["data", "given"], "centering": [False, True], "names": [None, ["a", "b", "c"]], "target": [None, "t"], "scaled": BOTH})
prop("P18", "The heterogeneity of a subregion is that of the global method on its rows.")
case("P18", "regional", "fit_tree",
     [{"method": RMETHODS, "feature": [1], "other": [2], "centering": [False, True]},
      {"method": RMETHODS, "feature": [0], "other": [2], "axis": ["given"], "centering": ["zero_start"], "minp": [10]}],
     {"method": RMETHODS, "feature": FEATS[:2], "other": [2], "axis": ["data", "given"], "centering": [False, True, "zero_start"], "minp": [4, 10]})

BK = ["any", "none"]
prop("P08", "Automatic binning: equal bins, greedy merging, cheapest joining; only valid bins.")
case("P08", "binning", "fixed",
     [{"feature": FEATS, "axis": ["data", "wider"], "minp": BK}, {"feature": [1], "axis": ["data"], "kind": ["int"], "minp": BK}, {"feature": [0, 2], "axis": ["absent"], "minp": BK},
      {"feature": [2], "axis": ["wider"], "minp": ["none"], "catlim": ["some"]}],
     {"feature": FEATS, "axis": ["data", "wider", "absent"], "minp": BK, "kind": ["real", "int"]})
case("P08", "binning", "categorical",
     {"which": ["fixed", "greedy", "dp"], "feature": [1, 2], "axis": ["data", "wider", "absent"], "minp": [0, 3]})
case("P08", "binning", "greedy",
     [{"feature": [1], "init": [1, 2, 3], "minp": [0, 2]}, {"feature": [0], "init": [2, 3], "axis": ["wider"], "minp": [0]}, {"feature": [2], "init": [2], "axis": ["absent"], "minp": [0]},
      {"feature": [1], "init": [2], "minp": [0], "catlim": ["some"]}, {"feature": [1], "init": [2], "minp": [2], "prior": ["minp", "discount", "effects"]}],
     {"feature": FEATS, "init": [1, 2, 3, 4], "minp": [0, 2, 10], "axis": ["data", "wider", "absent"]})
case("P08", "binning", "dynprog",
     [{"feature": [1], "K": [1, 2, 3], "minp": [0, 2]}, {"feature": [2], "K": [2, 3], "minp": [0], "axis": ["wider"]}, {"feature": [0], "K": [2], "minp": [0], "axis": ["absent"]},
      {"feature": [1], "K": [2], "minp": [0], "catlim": ["some"]}, {"feature": [1], "K": [2], "minp": [2], "prior": ["minp", "discount", "effects"]}],
     {"feature": FEATS, "K": [1, 2, 3, 4], "minp": [0, 2], "axis": ["data", "wider", "absent"]})

HOWS = ["str-fixed", "str-greedy", "str-dp", "obj-fixed", "obj-greedy", "obj-dp"] + [a + "-" + b for a, b in
        [("fixed", "k"), ("fixed", "m"), ("fixed", "c"), ("greedy", "k"), ("greedy", "m"), ("greedy", "d"), ("greedy", "c"), ("dp", "k"), ("dp", "m"), ("dp", "d"), ("dp", "c")]]
prop("P09", "The binning options of the user reach the binning algorithm on every path.")
case("P09", "options", "find", {"how": HOWS})
case("P09", "options", "fit",
     [{"method": ["ALE", "RHALE", "RHALE-eff"], "how": ["default"], "via": ["fit", "eval", "eval-centered", "plot"]},
      {"method": ["ALE"], "how": ["str-fixed", "obj-fixed", "fixed-k"], "via": ["fit", "eval", "plot", "all"]},
      {"method": ["RHALE", "RHALE-eff"], "how": ["str-fixed", "str-greedy", "str-dp", "obj-fixed", "obj-greedy", "obj-dp"], "via": ["fit", "eval", "plot", "all"], "axis": ["given", "data"]}],
     [{"method": ["ALE", "RHALE", "RHALE-eff"], "how": ["default"], "via": ["fit", "eval", "eval-centered", "plot"], "axis": ["given", "data"], "feature": FEATS},
      {"method": ["ALE"], "how": ["str-fixed", "obj-fixed", "fixed-k", "fixed-m", "fixed-c"], "via": ["fit", "eval", "plot", "all"], "axis": ["given", "data"], "feature": FEATS},
      {"method": ["RHALE", "RHALE-eff"], "how": HOWS, "via": ["fit", "eval", "plot", "all"], "axis": ["given", "data"], "feature": FEATS}])
case("P09", "options", "regional",
     [{"method": ["ALE"], "how": ["default", "str-fixed", "obj-fixed"], "via": ["fit", "eval", "plot"]},
      {"method": ["RHALE", "RHALE-eff"], "how": ["default", "str-greedy", "obj-fixed", "obj-greedy", "obj-dp"], "via": ["fit", "eval", "plot"]}],
     [{"method": ["ALE"], "how": ["default", "str-fixed", "obj-fixed", "fixed-k", "fixed-m", "fixed-c"], "via": ["fit", "eval", "plot"], "feature": [1, 2]},
      {"method": ["RHALE", "RHALE-eff"], "how": HOWS + ["default"], "via": ["fit", "eval", "plot"], "feature": [1, 2]}])

SC = ["none", "x", "y", "both"]
prop("P14", "Plots show the evaluated effect, its heterogeneity and the average output, in the units asked for.")
case("P14", "plots", "pdp",
     [{"method": ["PDP", "d-PDP"], "feature": [1], "heter": [False, True, "std_err", "ice"], "centering": [False], "scale": SC, "avg": [True]},
      {"method": ["PDP", "d-PDP"], "feature": [2], "heter": ["std", "ice"], "centering": [True, "zero_start"], "scale": ["none", "both"], "given": [True], "avg": [True], "names": [True], "target": [True], "ylim": [True], "points": [17]},
      {"method": ["PDP", "d-PDP"], "feature": [0], "heter": ["ice"], "centering": [False, "zero_start"], "scale": ["none", "both"], "nof_ice": [5], "axis": ["data"]},
      {"method": ["d-PDP-num"], "feature": [1], "heter": [True, False], "centering": [False], "scale": ["both"], "vect": BOTH}],
     [{"method": ["PDP", "d-PDP", "d-PDP-num"], "feature": FEATS, "heter": [False, True, "std_err", "ice"], "centering": [False, True, "zero_start"], "scale": SC, "avg": BOTH, "names": [True], "axis": ["given", "data"]},
      {"method": ["PDP", "d-PDP"], "feature": [2], "heter": ["std", "ice"], "centering": [True, "zero_start"], "scale": ["none", "both"], "given": [True], "avg": BOTH, "names": BOTH, "target": BOTH, "ylim": BOTH, "points": [17]},
      {"method": ["PDP", "d-PDP"], "feature": FEATS, "heter": ["ice"], "centering": [False, "zero_start"], "scale": ["none", "both"], "nof_ice": [1, 5], "axis": ["data", "given"]}])
case("P14", "plots", "ale",
     [{"method": ["ALE", "RHALE"], "feature": [1], "heter": HET, "centering": [False, True], "scale": SC, "avg": [True]},
      {"method": ["ALE", "RHALE-eff"], "feature": [2], "heter": [True], "centering": ["zero_start"], "scale": ["none", "both"], "avg": [True], "given": [True], "names": [True], "target": [True], "ylim": BOTH, "dylim": BOTH, "axis": ["data"]},
      {"method": ["ALE", "RHALE"], "feature": [1], "heter": [True, False], "centering": [True], "scale": ["none", "both"], "bins": ["uneven"]}],
     {"method": ["ALE", "RHALE", "RHALE-eff"], "feature": FEATS, "heter": HET, "centering": [False, True, "zero_start"], "scale": SC, "avg": BOTH, "given": [True], "names": BOTH, "target": [True], "ylim": BOTH, "dylim": BOTH, "axis": ["data", "given"]})
case("P14", "plots", "shapdp",
     [{"feature": [1], "heter": [False, True, "shap_values"], "centering": [False, "zero_start"], "scale": SC, "avg": [True]},
      {"feature": [2], "heter": ["std", "shap_values"], "centering": [True], "scale": ["none", "both"], "avg": [True], "given": [True], "names": [True], "target": [True], "ylim": [True], "points": [17], "axis": ["data"]},
      {"feature": [0], "heter": ["shap_values"], "centering": [False, "zero_start"], "scale": ["both"], "some": [5]}],
     {"feature": FEATS, "heter": [False, True, "std", "shap_values"], "centering": [False, True, "zero_start"], "scale": SC, "avg": BOTH, "given": [True], "names": [True], "ylim": [True], "points": [17, 30], "axis": ["data", "given"], "some": ["all", 5]})

prop("P15", "Interaction indices follow their definition, are symmetric, stored and plotted unchanged.")
SIZES = ["all", "smaller", "larger"]
case("P15", "interaction", "pairwise", [{"a": [0], "b": [1], "size": SIZES}, {"a": [1, 2], "b": [0], "size": ["all"]}], {"a": [0], "b": [1, 2], "size": SIZES}, )
case("P15", "interaction", "pairwise", {"a": [2], "b": [1], "size": ["all"]}, {"a": [1, 2], "b": [0], "size": SIZES})
case("P15", "interaction", "one_vs_all", {"a": FEATS, "size": SIZES})
case("P15", "interaction", "hfit", {"pairs": BOTH, "every": BOTH, "first": [None, [2, 1], [0, 2]]})
case("P15", "interaction", "hplot", {"first": [None, "pairs", "all"]})
case("P15", "interaction", "repid",
     [{"a": FEATS, "other": [0], "size": SIZES, "how": ["eval"]}, {"a": [1], "other": [0, 2], "how": ["other first", "fit", "fit all"]}],
     {"a": FEATS, "other": FEATS, "size": SIZES, "how": ["eval", "other first", "fit", "fit all"]})
case("P15", "interaction", "repid_plot", {"features": [None, 0, 1, [0, 2], "all"]})

prop("P16", "DataTransformer: one masked copy of a feature per subregion, each row in exactly one.")
S0, S1, S2 = [], [(0, "cont")], [(1, "cat"), (2, "numerical")]
case("P16", "transform", "transform",
     [{"shape": [[S0, S0, S0], [S0, S1, S0], [S2, S0, S1], [S0, S0, S2], [S1, S1, S1]], "order": [(0, 1, 2), (2, 1, 0)], "twice": BOTH},
      {"shape": [[[(1, "cat"), (2, "cont"), (1, "cont")], S0, S0], [S0, [(0, "cat")], [(1, "cat"), (1, "cat")]]], "kind": ["real", "int"]}])

prop("P07", "Nothing the caller passes in is modified, and results are the caller's own.")
case("P07", "inputs", "everywhere",
     [{"method": METHODS, "feature": [1], "axis": ["given", "data"], "heter": [True]}, {"method": METHODS, "feature": [0], "heter": [False], "centering": [True]}],
     {"method": METHODS, "feature": [0, 1], "axis": ["given", "data"], "heter": HET, "centering": [False, True, "zero_start"]})
case("P07", "inputs", "twice",
     {"method": METHODS, "feature": [1], "centering": [False, "zero_start"], "heter": HET},
     {"method": METHODS, "feature": FEATS, "centering": CEN, "heter": HET})
case("P07", "inputs", "overwrite", {"method": METHODS, "feature": [1], "centering": [False, True]})
case("P07", "inputs", "regional",
     [{"method": RMETHODS, "feature": [1], "other": [0], "axis": ["given"], "scaled": [True]}, {"method": RMETHODS, "feature": [2], "other": [1], "axis": ["data"], "scaled": [False], "types": ["cat"]}],
     {"method": RMETHODS, "feature": FEATS[:2], "other": [2], "axis": ["data", "given"], "scaled": BOTH, "types": ["cont", "cat"]})
case("P07", "inputs", "conditioning",
     [{"method": RMETHODS, "feature": [1], "cond": [[0, 1], [2, 1, 0]]}, {"method": ["PDP", "RHALE"], "feature": [0], "cond": [[2, 0], [0]]}],
     {"method": RMETHODS, "feature": FEATS[:2], "cond": [[0, 1], [2, 1, 0], [0], [1, 1, 2]], "types": ["cont"]})
case("P07", "inputs", "helpers_", {"what": ["local effects", "filter", "bin effect", "bin variance", "fill", "accumulate", "jacobian", "types", "limits", "drop", "average"]})
for _f, _q in [("fixed", {"feature": [1], "minp": ["any"]}), ("greedy", {"feature": [1], "init": [3]}), ("dynprog", {"feature": [1], "K": [2]})]:
    case("P07", "binning", _f, _q)
case("P07", "pdp", "functions", {"n": ["vec", "non"], "feature": [1], "heter": [True], "jacobian": ["no", "yes", "num"]})
case("P07", "pdp", "functions_nd", {"n": ["vec", "non"], "features": [[0, 2]], "heter": HET})
case("P07", "interaction", "hfit", {"pairs": [True], "every": [True]})
case("P07", "interaction", "repid", {"a": [1], "other": [0], "how": ["fit all"]})
case("P07", "transform", "transform", {"shape": [[S2, S1, S0]]})
case("P07", "regions", "tree", {"feature": [1], "jac": [True], "levels": [1], "foc": ["all"], "scaled": [True]})

prop("P17", "One draw of distinct rows when fewer instances are requested than there are; nothing else is random.")
case("P17", "chance", "globals_",
     {"method": METHODS, "how": SIZES}, {"method": METHODS, "how": SIZES, "feature": [1, 2], "centering": CEN})
case("P17", "chance", "regional", {"method": RMETHODS, "how": SIZES}, {"method": RMETHODS, "how": SIZES, "feature": [1, 2]})
case("P17", "chance", "interaction", {"kind": ["H", "REPID"], "how": SIZES})
case("P17", "chance", "undrawn", {"method": ["PDP", "d-PDP"], "heter": [True, False, "std_err"], "scale": [False]}, {"method": ["PDP", "d-PDP"], "heter": [True, False, "std", "std_err"], "scale": BOTH})
case("P17", "plots", "pdp", {"method": ["PDP", "d-PDP"], "feature": [1], "heter": ["ice", True], "centering": [False], "scale": ["none"], "nof_ice": [5, "all"]})
case("P17", "plots", "shapdp", {"feature": [1], "heter": ["shap_values", True], "centering": [False], "scale": ["none"], "some": [5, "all"]})

prop("P19", "Options outside the documented set raise an exception; they are never taken for another option.")
GM = ["PDP", "d-PDP", "ALE", "RHALE", "ShapDP"]
RM = ["PDP", "d-PDP", "ALE", "RHALE", "ShapDP"]
case("P19", "reject", "centering",
     {"method": GM, "value": ["zero", "", None, 0], "where": ["fit", "eval", "plot"]},
     {"method": METHODS, "value": ["zero", "", None, 0, "zero-start", "start", 2], "where": ["fit", "eval", "plot"], "feature": [0, 1], "heter": HET})
case("P19", "reject", "heterogeneity", {"method": GM, "value": ["spread"]}, {"method": METHODS, "value": ["spread", "ICE", "variance", 3]})
case("P19", "reject", "binning",
     [{"method": ["ALE", "RHALE"], "value": ["quantile"]}, {"method": ["ALE"], "value": ["greedy", "dp", "Greedy", "DP"]}],
     [{"method": ALES, "value": ["quantile", "Fixed", 5]}, {"method": ["ALE"], "value": ["greedy", "dp", "Greedy", "DP"]}])
case("P19", "reject", "impossible", {"method": ["ALE", "RHALE"]}, {"method": ALES, "feature": FEATS})
case("P19", "reject", "instances", {"method": METHODS, "value": [10.5, "half"]})
case("P19", "reject", "flat", {"method": GM, "where": ["inverted", "empty"]}, {"method": METHODS, "where": ["inverted", "empty"], "feature": FEATS})
case("P19", "reject", "shapes", {"method": GM, "how": [1, 3]}, {"method": METHODS, "how": [1, 3]})
case("P19", "reject", "features", {"method": GM, "value": [1.5]}, {"method": METHODS, "value": [1.5, {"a": 1}]})
case("P19", "reject", "node", {"method": RM, "what": ["eval", "plot", "info"], "k": [3, -1]})
case("P19", "reject", "cutcat", {"method": RM, "what": ["eval", "plot"]})
case("P19", "reject", "regionalfit",
     [{"method": RM, "what": ["points", "depth", "types", "centering"]}, {"method": ["ALE", "RHALE"], "what": ["binning"]}],
     [{"method": RMETHODS, "what": ["points", "depth", "types", "centering"], "feature": FEATS[1:]}, {"method": ["ALE", "RHALE", "RHALE-eff"], "what": ["binning"]}])
case("P19", "reject", "regionaluse", {"method": RM, "what": ["eval", "plot", "heter"]}, {"method": RMETHODS, "what": ["eval", "plot", "heter"]})
case("P19", "reject", "nd", {"which": ["vec", "non"], "derivative": BOTH})

prop("P20", "Names, attributes, calls and unpackings of the package fit each other; documented calls complete.")
case("P20", "sessions", "global_",
     [{"method": ["PDP", "d-PDP", "d-PDP-num"], "features": ["all"], "axis": ["given"], "centering": [True], "heter": [True], "names": [True], "avg": [True]},
      {"method": ["PDP"], "features": ["one", "list"], "axis": ["data"], "centering": ["zero_start", False], "heter": ["std_err", "ice", False]},
      {"method": ["ShapDP"], "features": ["all", "list", "one"], "axis": ["given", "data"], "centering": [True, False], "heter": [True, "shap_values"], "names": [True]},
      {"method": PDPS + ["ShapDP"], "features": ["one"], "axis": ["given"], "centering": [True], "heter": [True], "points": ["all"], "scaled": [False]},
      {"method": ["ALE", "RHALE"], "features": ["list"], "axis": ["given"], "centering": [True], "heter": [True], "names": [True], "avg": [True], "bins": ["Fixed"]},
      {"method": ["ALE", "RHALE-eff", "RHALE-num"], "features": ["one"], "axis": ["data"], "centering": ["zero_start", False], "heter": [True, False], "bins": ["Fixed"], "scaled": [False]}],
     [{"method": ["PDP", "d-PDP", "d-PDP-num"], "features": list(("all", "one", "list")), "axis": ["given", "data"], "centering": CEN, "heter": [True, False, "std_err", "ice"], "names": BOTH, "avg": BOTH, "scaled": BOTH},
      {"method": ["ShapDP"], "features": ["all", "list", "one"], "axis": ["given", "data"], "centering": CEN, "heter": [True, False, "shap_values"], "names": BOTH, "avg": BOTH, "scaled": BOTH},
      {"method": ALES, "features": ["one", "list"], "axis": ["given", "data"], "centering": CEN, "heter": HET, "names": BOTH, "avg": [True], "bins": ["Fixed", "fixed"], "scaled": BOTH}])
case("P20", "sessions", "regional",
     [{"method": RMETHODS, "features": ["one"], "only": [True], "scaled": [True], "names": [True]},
      {"method": RMETHODS, "features": ["all"], "only": [False], "scaled": [False], "centering": [True]},
      {"method": ["PDP", "ShapDP"], "features": ["one"], "only": [True], "scaled": [False], "centering": [True], "points": ["all"]}],
     {"method": RMETHODS, "features": ["one", "list", "all"], "only": BOTH, "scaled": BOTH, "names": BOTH, "centering": CEN})

prop("P21", "The printed partitioning shows the statistics of the tree asked for.")
case("P21", "printed", "tree",
     [{"feature": [1, 0], "depth": [1], "foc": [[2]]}, {"feature": [1], "depth": [2], "foc": [[0, 2]], "scaled": BOTH}, {"feature": [1], "depth": [1], "foc": [[0, 2]], "only": [True], "scaled": [True]}],
     {"feature": [1], "depth": [1, 2], "foc": [[0, 2], [2, 0]], "only": BOTH, "scaled": BOTH})
case("P21", "printed", "partitioning",
     [{"method": ["PDP"], "feature": [1], "foc": [[0]], "depth": [1], "only": [None, True, False], "keep": BOTH, "scaled": BOTH},
      {"method": ["any"], "feature": [1], "foc": [[0, 2], [2, 0]], "depth": [2], "only": [None, False], "how": ["list"]}],
     [{"method": RMETHODS, "feature": [1, 2], "foc": [[0], [0, 1]], "depth": [1], "only": [None, True, False], "keep": BOTH, "scaled": BOTH, "how": ["int", "list"]},
      {"method": ["any"], "feature": [1], "foc": [[0, 2], [2, 0]], "depth": [2], "only": [None, True, False], "how": ["list"]}])
case("P21", "printed", "describe",
     [{"method": ["PDP"], "feature": [1], "foc": [[0]], "depth": [1], "only": [None, True, False], "keep": BOTH, "scaled": BOTH},
      {"method": ["any"], "feature": [1], "foc": [[0, 2], [2, 0]], "depth": [2], "only": [None, False], "scaled": BOTH, "how": ["list"]}],
     [{"method": RMETHODS, "feature": [1, 2], "foc": [[0], [0, 1]], "depth": [1], "only": [None, True, False], "keep": BOTH, "scaled": BOTH, "how": ["int", "list"]},
      {"method": ["any"], "feature": [1], "foc": [[0, 2], [2, 0]], "depth": [2], "only": [None, True, False], "scaled": BOTH, "how": ["list"]}])

case("P21", "printed", "none", {"method": ["PDP", "RHALE"], "scaled": BOTH, "only": BOTH}, {"method": RMETHODS, "scaled": BOTH, "only": BOTH})

prop("P22", "A call that is refused leaves the object as it was.")
WHAT = ["fit centering", "fit all centering", "eval centering", "plot centering", "plot heterogeneity", "features"]
case("P22", "failures", "effect",
     [{"method": ["PDP", "d-PDP", "ShapDP", "ALE", "RHALE"], "what": WHAT, "fitted": BOTH},
      {"method": ["ALE", "RHALE", "RHALE-eff"], "what": ["binning", "bins"], "fitted": BOTH}],
     [{"method": METHODS, "what": WHAT, "fitted": BOTH, "centering": [True, "zero_start", False], "feature": FEATS},
      {"method": ALES, "what": ["binning", "bins"], "fitted": BOTH, "centering": [True, "zero_start", False], "feature": FEATS}])
case("P22", "failures", "unfitted",
     [{"method": ["PDP", "d-PDP", "ShapDP"], "what": WHAT}, {"method": ["ALE", "RHALE", "RHALE-eff"], "what": WHAT + ["binning", "bins"]}],
     [{"method": METHODS, "what": WHAT, "centering": [True, "zero_start", False], "feature": FEATS}, {"method": ALES, "what": ["binning", "bins"], "centering": [True, "zero_start", False], "feature": FEATS}])
case("P22", "failures", "partition",
     [{"method": RM, "what": ["points", "depth", "centering", "features", "eval", "plot"]}, {"method": ["ALE", "RHALE"], "what": ["binning"]}],
     [{"method": RMETHODS, "what": ["points", "depth", "centering", "features", "eval", "plot"], "feature": FEATS[1:]}, {"method": ["ALE", "RHALE", "RHALE-eff"], "what": ["binning"]}])

case("P22", "failures", "index", {"what": ["pairs", "all", "plot"], "k": [1, 2, 4]}, {"what": ["pairs", "all", "plot"], "k": [1, 2, 3, 4, 5, 6, 7, 8, 9]})
prop("P23", "The model, its Jacobian and SHAP are called when fitting, not for every look at the result.")
case("P23", "economy", "looks",
     {"method": ["ALE", "RHALE", "RHALE-eff", "RHALE-num", "ShapDP"], "centering": [True, "zero_start", False]},
     {"method": ["ALE", "RHALE", "RHALE-eff", "RHALE-num", "ShapDP"], "centering": [True, "zero_start", False], "feature": [1, 2], "other": [0]})
case("P23", "economy", "effects", {"given": [False, True, "both"]}, {"given": [False, True, "both"], "feature": [1, 2]})
case("P23", "economy", "average", {"method": ["PDP", "ALE", "ShapDP"], "given": BOTH})

prop("P24", "What the constructors derive from the data, and what they take from the caller.")
case("P24", "derived", "effect", {"method": METHODS, "given": BOTH})
case("P24", "derived", "regional", {"method": RMETHODS, "given": BOTH, "limit": ["symbolic", "default"]})
case("P24", "derived", "effect", {"method": METHODS, "given": BOTH, "n": ["fewer"]})
case("P24", "derived", "regional", {"method": RMETHODS, "given": BOTH, "n": ["fewer"]})
case("P24", "derived", "interaction", {"kind": ["H", "REPID"]})
