"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True, technique=None, note=None, reason=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["effector/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, claimed, technique, note, reason))


TECH = "abstract interpretation to value graphs (loops and array sizes symbolic), congruence with a reference graph"
NOTE = ("Static: the source of /repo is interpreted over symbolic inputs (number of instances, of evaluation points and of bins are symbols; "
        "3 features; model, Jacobian, SHAP and spline uninterpreted) and the resulting value graph is compared with the specified one by normal-form congruence. "
        "Leaves that are neither congruent nor refuted, and constructs outside the modelled subset, are counted as such in the evidence and raise no alarm. "
        "Trusts the numpy/scipy/matplotlib semantics in sa/, real-number arithmetic.")

prop("P01", "PDP and d-PDP curves are the brute-force partial dependence",
     "Evaluating a PDP (or derivative PDP) at any query point returns, for the instances within the axis limits, the mean over instances of the model output (or of its derivative w.r.t. the feature) when only the feature of interest is replaced by the query value; the heterogeneity is the standard deviation of the same individual curves. Vectorised and looped evaluation, the stand-alone averaging functions, and analytic or numerical derivatives all follow this definition, for real- and integer-valued designs.",
     ["inputs", "configurations"], "all data matrices and query vectors of any length, every feature, vectorised or not, with and without heterogeneity, analytic or numerical derivative",
     "Tests compare a few hand-made linear models at fixed N; they do not cover all option combinations, integer data, axis limits that drop instances, or every query vector.",
     ["global_effect_pdp.py", "utils.py"], [("ICE evaluation", "effector/global_effect_pdp.py: ice_vectorized, ice_non_vectorized, pdp_1d_*, pdp_nd_*"), ("evaluation", "effector/global_effect_pdp.py: PDPBase.eval")])

prop("P02", "Centering subtracts exactly the requested reference value",
     "An effect evaluated with a centering mode equals the uncentred effect minus its value at the start of the feature's axis range (zero-start), or minus its average over that range on the configured grid (zero-integral, also the meaning of True); for (d-)PDP this is done per individual curve, so the heterogeneity is that of the centred curves. The mode requested at evaluation applies whatever mode the object was fitted with, including not fitted at all and not centred.",
     ["inputs", "configurations", "histories"], "all methods, all pairs (mode at fit, mode at evaluation), all data and axis limits, any number of centering points",
     "Tests evaluate one or two mode pairs on analytic models; the product of fit mode, evaluation mode, method and axis limits is not covered.",
     ["global_effect.py", "global_effect_pdp.py", "global_effect_ale.py", "global_effect_shap.py", "utils_integrate.py", "helpers.py"],
     [("refit on demand", "effector/global_effect.py: GlobalEffectBase.refit"), ("normalisation constants", "effector/global_effect_pdp.py, global_effect_ale.py, global_effect_shap.py: fit / _fit_feature"), ("integration", "effector/utils_integrate.py")])

prop("P03", "Results do not depend on what was fitted, evaluated or plotted before",
     "The result of evaluating a feature is a function of the data, the model, the options of that call and of the last explicit fit of that feature. Fitting, evaluating or plotting other features, evaluating with other centering modes, refitting on demand, or plotting (with or without scaling) before it never changes it, and fitting several features at once is the same as fitting each of them. Likewise the subregions of a feature, and how the effect in them is configured, are those of the last fit of that feature, whatever is done with other features. Objects are independent: fitting or evaluating another object, of other data, changes nothing.",
     ["histories", "inputs"], "all methods; all short histories of fit / eval / plot calls on the same object, arbitrary data",
     "Tests build one object, fit it once and evaluate once; interactions between calls on the same object need arbitrary histories.",
     ["global_effect.py", "global_effect_pdp.py", "global_effect_ale.py", "global_effect_shap.py", "regional_effect.py"],
     [("fitted state", "effector/global_effect.py: feature_effect, is_fitted, method_args"), ("refit arguments", "effector/global_effect.py: GlobalEffectBase._fit_args")])

prop("P04", "ALE and RHALE accumulate the mean local effect of each bin",
     "For any valid bin limits, every instance inside the axis limits belongs to exactly one bin; its local effect is the finite difference of the model across its own bin (ALE) or the supplied, analytic or numerical derivative (RHALE); the bin effect and variance are the mean and variance of the local effects in the bin, empty or undefined bins are interpolated, and the curve at x is the integral of the bin effects from the first limit to x (standard deviation likewise).",
     ["inputs", "configurations"], "all data, query vectors, bin counts and (non-uniform) bin limits, every feature, with and without heterogeneity",
     "Tests use a handful of models on uniform data with equal bins; boundary points, empty bins, unequal bins and query points at arbitrary positions are not enumerable.",
     ["global_effect_ale.py", "utils.py"],
     [("local effects", "effector/utils.py: compute_local_effects"), ("bin statistics", "effector/utils.py: compute_bin_effect, compute_bin_variance, fill_nans, compute_ale_params"), ("accumulation", "effector/utils.py: compute_accumulated_effect")])

prop("P05", "The SHAP dependence curve is fitted on aligned (value, attribution) pairs",
     "The SHAP dependence effect is the spline through the pairs (feature value, attribution of that feature for the same instance) of the instances within the axis limits, ordered by feature value, and its heterogeneity is the spline of the absolute residuals; centering subtracts the documented reference of that curve.",
     ["inputs", "configurations"], "all data, attributions, axis limits, centering modes at fit and evaluation",
     "The tests check one additive model where a misaligned or mis-sorted pairing can still pass, and few mode combinations.",
     ["global_effect_shap.py"], [("fitting", "effector/global_effect_shap.py: ShapDP._fit_feature"), ("evaluation", "effector/global_effect_shap.py: ShapDP.eval")])

prop("P06", "A subsample uses the requested number of distinct rows, all columns aligned",
     "With a requested number of instances smaller than the data set, exactly that many distinct rows are drawn, once; with 'all' or a larger number every row is used in order and nothing is drawn. All results equal those of an object built on exactly these rows, with supplied derivatives taken from the same rows.",
     ["inputs", "configurations"], "all data sets, all requested sizes (symbolic), every method",
     "Tests run on the full data or a lucky seed; alignment of data, effects and axis limits over all sizes is not sampled.",
     ["helpers.py", "global_effect.py", "global_effect_ale.py", "global_effect_shap.py"],
     [("sampling", "effector/helpers.py: prep_nof_instances"), ("row selection", "effector/global_effect.py: GlobalEffectBase.__init__; RHALE.__init__")])

prop("P08", "Automatic binning returns valid bins covering the axis limits",
     "The bins of a continuous feature start at the lower and end at the upper axis limit and are strictly increasing. Fixed binning returns equally wide bins, or reports that no binning is possible when one holds fewer than the minimum number of points. Dynamic programming returns the joining of neighbouring equal cells that minimises the total size-discounted variance cost, in which bins with fewer than the minimum number of points are not allowed. Greedy binning starts from equal cells and, from the left, lets the current bin absorb the next cell unless the bin is populated enough on its own and absorbing would raise its cost. A feature with at most cat_limit distinct values gets one bin around each value, split half-way. No binning is reported when the feature is constant or there are fewer instances than the minimum, one bin when there are fewer than twice the minimum. Data, effects and limits are not modified.",
     ["inputs", "configurations"], "all data and effects, axis limits at or beyond the data, any number of fixed bins, up to four greedy or dynamic-programming cells, any discount, several minimum sizes",
     "Tests compare bin counts on two hand-made piecewise-linear effects; validity and optimality quantify over all data, effects, discounts and minimum sizes.",
     ["bin_splitting.py", "utils.py"], [("search", "effector/bin_splitting.py: Fixed.find, Greedy.find, DP.find"), ("cost", "effector/bin_splitting.py: BinBase._bin_cost, _bin_valid"), ("categorical", "effector/bin_splitting.py: BinBase._is_categorical")])

prop("P09", "The binning options given by the user reach the binning algorithm",
     "Whenever ALE, RHALE or a regional version of them computes bins (at fit, at a refit triggered by evaluating or plotting with another centering, while searching for subregions, and for the effect of a subregion) the algorithm that runs is the one last requested at fit for that feature, with exactly the number of bins, minimum number of points, discount and categorical limit of the given binning object (or the documented defaults of what was left out: 'fixed' = 20 bins and 'greedy' = 100 initial bins and 'dp' = at most 20 bins without minimum for global methods), on the rows inside the axis limits, their effects, and the configured axis limits.",
     ["configurations", "histories", "inputs"], "all option values (symbolic), ten ways to give them, first fits, implicit fits and refits, global and regional, all data",
     "Tests give one or two configurations and look at the curve, where another number of bins or discount often gives nearly the same curve; option forwarding must hold on every path.",
     ["binning_methods.py", "global_effect_ale.py", "regional_effect_ale.py", "regional_effect.py"],
     [("dispatch", "effector/binning_methods.py: find_limits"), ("fits", "effector/global_effect_ale.py: ALE._fit_feature, RHALE._fit_feature, ALEBase._fit_loop"), ("regional", "effector/regional_effect_ale.py: fit, plot, prep_binning_method")])

prop("P07", "Nothing the caller passes in is modified, and results are the caller's own",
     "No constructor, fit, eval, plot, partitioning display, interaction index, binning search, transformer or numerical helper (local effects, bin statistics, filtering, filling, accumulation, differentiation, partial dependence, type and limit derivation) writes to an object that belongs to the caller: data, instance effects, axis limits, query points, feature names and types, feature and conditioning lists, scale dictionaries, ranges, bin limits, split tables, binning-method objects. Arrays returned by eval belong to the caller: overwriting them, or the query points passed in, changes neither later results nor results already returned.",
     ["inputs", "configurations", "histories"], "all public entry points with caller-owned arguments, all methods, all data",
     "Tests never compare arguments before and after a call; aliasing writes happen only on particular paths.",
     ["global_effect.py", "global_effect_pdp.py", "global_effect_ale.py", "global_effect_shap.py", "regional_effect.py", "partitioning.py", "utils.py", "helpers.py", "visualization.py", "bin_splitting.py", "interaction.py"],
     [("row selection copies", "effector/global_effect.py: GlobalEffectBase.__init__; effector/regional_effect.py: RegionalEffectBase.__init__"), ("query copies", "effector/global_effect_pdp.py: pdp_1d_vectorized"), ("local effects", "effector/utils.py: compute_local_effects, fill_nans"), ("names", "effector/regional_effect.py: plot")])

prop("P10", "Subregions partition the rows of their parent",
     "In every tree of subregions the two children of a split hold exactly the rows of the parent on either side of it (<= / > the position for numerical, == / != for categorical features), each row in exactly one child, with the derivatives of the same rows; node size, weight (share of all rows), level, heterogeneity and name (with the split value in the requested scale) belong to these rows. The input data are not changed.",
     ["inputs", "configurations"], "all data, any heterogeneity function, numerical and categorical features, trees of depth 0 to 2, with and without scaling, pruned or not",
     "Tests check the size of one tree on one data set; that no row is lost, duplicated or misaligned must hold for all data and all split positions.",
     ["partitioning.py"], [("splitting", "effector/partitioning.py: Regions.split_dataset"), ("tree", "effector/partitioning.py: Regions.splits_to_tree, Tree, Node")])

prop("P11", "The chosen split has the largest population-weighted heterogeneity drop",
     "At every level the search considers every candidate feature and every candidate position (for numerical features the middles of equal parts of its range in the full data, for categorical ones its distinct values), divides all current subregions, and chooses the candidate with the largest population-weighted drop in heterogeneity, the first among equals; the reported sizes, heterogeneities and weighted heterogeneity are those of that choice. Levels stop as soon as a subregion is smaller than the minimum.",
     ["inputs", "configurations"], "all data, any heterogeneity function of the rows (and of their derivatives), numerical and categorical features, restricted conditioning features, 1-2 levels, 1-4 candidate positions",
     "Tests use one model whose best split is obvious; ties, later levels, weights and mixed feature types are not covered.",
     ["partitioning.py"], [("search", "effector/partitioning.py: Regions.search_all_splits, single_level_splits"), ("candidates", "effector/partitioning.py: Regions.find_positions_cat, find_positions_cont")])

prop("P12", "Only splits that lower the heterogeneity enough are kept",
     "The pruned tree keeps the leading levels each of which lowers the weighted heterogeneity by more than the requested fraction of the previous level, and stops at the first that does not; nothing is split when the overall heterogeneity is already below the requested threshold or undefined, nor (unless asked) when the feature of interest is categorical. Kept levels are unchanged copies of the searched ones.",
     ["inputs", "configurations"], "all thresholds (symbolic), all heterogeneity sequences of up to five levels, all data for one level, numerical and categorical features",
     "Tests fix the thresholds and use a model with one obvious split; threshold and ordering errors show only for particular sequences of heterogeneities.",
     ["partitioning.py"], [("pruning", "effector/partitioning.py: Regions.choose_important_splits"), ("tree", "effector/partitioning.py: Regions.splits_to_tree")])

prop("P13", "A regional effect is the global effect of the rows of the subregion",
     "Evaluating or plotting a node of a regional effect gives exactly what the global method gives on the rows (and derivatives) of that node, with the axis limits, binning / centering configuration and names given by the user, whatever was evaluated before. The plotted title carries the condition of the subregion, in the requested scale; node 0 is the global effect.",
     ["inputs", "configurations", "histories"], "six regional methods, all data and axis limits, both children and the root, all centering modes, scaled or not",
     "Tests compare a few averages on one model; that options (limits, bins, centering, scales, names) reach the effect of the subregion needs all combinations.",
     ["regional_effect.py", "regional_effect_pdp.py", "regional_effect_ale.py", "regional_effect_shap.py"],
     [("subregion effect", "effector/regional_effect.py: RegionalEffectBase._create_fe_object, eval, plot"), ("method arguments", "effector/regional_effect_*.py: fit")])

prop("P14", "Plots show the evaluated effect and heterogeneity in the requested units",
     "A plot of a feature shows, over an even grid of the configured size spanning the axis limits, exactly the curve that eval returns for that feature and centering; for ALE also one bar per bin with its mean effect, centre and width; the band or error bars show the heterogeneity of that curve (standard deviation, standard error or none, as requested), ICE curves and SHAP points are those behind the curve (the requested number of distinct ones), and the average-output line appears exactly when asked for. With scale_x / scale_y the x values, outputs, bands, slopes and bars are all converted to the original units (value*std+mean, widths*std, slopes*std_y/std_x); names and ranges given by the user are used, data and scales are not modified.",
     ["inputs", "configurations"], "all data, all scales (symbolic means and deviations), every combination of centering, heterogeneity display and scaling, global methods",
     "Tests call plot at most to see that it does not crash; what is drawn is never looked at.",
     ["visualization.py", "global_effect_pdp.py", "global_effect_ale.py", "global_effect_shap.py", "helpers.py"],
     [("drawing", "effector/visualization.py: plot_pdp_ice, ale_plot, ale_bins, plot_shap"), ("calls", "effector/global_effect_*.py: plot"), ("average output", "effector/helpers.py: prep_avg_output")])

prop("P15", "Interaction indices follow their definition and are stored consistently",
     "HIndex.eval_pairwise(i, j) is the mean squared deviation of the centred two-feature partial dependence from the sum of the centred one-feature ones, over the mean square of the former, all over the instances in use and evaluated at their own values; eval_one_vs_all(i) is the same for feature i against all others together and the centred model output. REPID is the mean, over the middles of 20 equal parts of the feature's range, of the standard deviation of the instances' curves started at zero. Values are symmetric in (i, j), identical when asked again, in fit and in the plots whatever was computed before (diagonal 0), plots show a value for every feature, and data are not modified.",
     ["inputs", "histories", "configurations"], "all data and models, all pairs of features, subsamples of any size, any order of eval / fit / plot",
     "The tests do not exercise the interaction module at all; formula and caching errors need arbitrary models and call orders.",
     ["interaction.py", "global_effect_pdp.py"],
     [("H-statistic", "effector/interaction.py: HIndex.eval_pairwise, eval_one_vs_all, _pdp_1d, _pdp_2d, _pdp_minus_1d"), ("REPID", "effector/interaction.py: REPID.eval_one_vs_all"), ("stored values", "effector/interaction.py: interaction_matrix, one_vs_all_matrix")])

prop("P16", "DataTransformer gives every row to exactly one copy of each feature",
     "DataTransformer.transform returns, feature by feature, one copy of the column per combination of sides of the feature's splits (a single unchanged copy without splits); a row keeps its value in the one copy whose conditions (<= / > for numerical, == / != for categorical splits) it satisfies and is zero in the others, so the copies of a feature add up to the column; the names state these conditions in the same order. The result does not depend on the order of the dictionary or on earlier calls; data and splits are not modified.",
     ["inputs", "configurations"], "all data, all split positions and conditioning features, up to three splits per feature, any order of the dictionary",
     "No test touches DataTransformer; that no row is lost or duplicated at split positions (ties) must hold for all values.",
     ["partitioning.py"], [("transformation", "effector/partitioning.py: DataTransformer.transform")])

prop("P17", "Results are reproducible: the only randomness is the requested subsampling",
     "All randomness comes from numpy's global generator, which the package never reseeds or replaces, so np.random.seed makes every result reproducible. Constructing a global, regional or interaction object with fewer instances than the data has draws once, uniformly and without replacement; with 'all' or at least as many it draws nothing. Fitting, evaluating, plotting and displaying draw nothing, except that a plot showing a limited number of ICE curves, or asked for a limited number of SHAP points, draws those.",
     ["configurations", "inputs"], "all entry points, all sizes (symbolic), every source of randomness referenced in the package",
     "A test sees one run; hidden draws or reseeding change other code's random stream and only show across runs.",
     ["helpers.py", "global_effect.py", "global_effect_ale.py", "regional_effect.py", "visualization.py", "interaction.py"],
     [("subsampling", "effector/helpers.py: prep_nof_instances"), ("ICE choice", "effector/visualization.py: plot_pdp_ice")],
     technique="resolution of every reference to a source of randomness; abstract interpretation recording each draw with its population, size and replacement flag")

prop("P18", "Subregion heterogeneity is that of the global method on its rows",
     "The heterogeneity that drives the partitioning is that of the corresponding global method on the rows of the candidate subregion with the fit options given by the user: the mean over an even grid of the evaluated heterogeneity for (derivative) PDP and SHAP, the accumulated heterogeneity at the right end for ALE and RHALE, and the large constant when the subregion has too few rows or cannot be fitted.",
     ["inputs", "configurations"], "six regional methods, all data, derivatives and axis limits, all centering modes, any minimum size",
     "The tests check which split is found for one model per method, not the value that decides.",
     ["regional_effect.py", "regional_effect_pdp.py", "regional_effect_ale.py", "regional_effect_shap.py"],
     [("heterogeneity", "effector/regional_effect_*.py: _create_heterogeneity_function")])

prop("P19", "Options outside the documented set are rejected, never taken for another",
     "A centering, heterogeneity display, binning method or number of instances outside the documented set, a binning method the effect cannot use, bins that cannot be built, an empty or inverted axis range, data that is not a matrix, positions whose columns do not match the features, a subregion that does not exist (or of a feature without subregions), a minimum subregion size below 2 and a depth larger than the number of conditioning features raise an exception, in the global methods and in the regional ones; they are never silently replaced by some other behaviour or by an empty result.",
     ["inputs", "configurations"], "every method and entry point that takes the option; all data",
     "The tests only make valid calls; each rejection sits on a path of its own, some behind exception handlers that swallow it.",
     ["helpers.py", "global_effect.py", "global_effect_ale.py", "global_effect_pdp.py", "global_effect_shap.py", "regional_effect.py", "regional_effect_ale.py", "regional_effect_pdp.py", "regional_effect_shap.py", "binning_methods.py", "partitioning.py"],
     [("option checks", "effector/helpers.py: prep_centering, prep_confidence_interval, prep_features, prep_nof_instances"), ("binning", "effector/binning_methods.py: find_limits; effector/global_effect_ale.py: ALE.fit, RHALE.fit"), ("nodes", "effector/regional_effect.py: get_node_info")],
     technique="abstract interpretation of each invalid call over symbolic data: every path must raise")

prop("P20", "Documented calls complete; names, calls and unpackings fit each other",
     "Every name used in the package is defined, every attribute read from its modules, classes and objects exists, every call binds to the signature of what it calls, every unpacking has the length of what is returned, and every option of the public interface is read by the function that takes it. Sessions of documented calls (construct, fit, evaluate, plot, print, with the options documented) on features that vary complete without an exception, whatever the data.",
     ["inputs", "configurations"], "all modules of the package; all global and regional methods with their documented options, all data (symbolic) with at least two distinct values of the feature",
     "Python binds names and calls only when the line runs; tests run few of the option paths and data shapes.",
     ["global_effect.py", "global_effect_ale.py", "global_effect_pdp.py", "global_effect_shap.py", "regional_effect.py", "regional_effect_ale.py", "regional_effect_pdp.py", "regional_effect_shap.py", "partitioning.py", "visualization.py", "utils.py", "interaction.py"],
     [("sessions", "effector/global_effect*.py, effector/regional_effect*.py: fit, eval, plot, show_partitioning, describe_subregions")],
     technique="whole-program name resolution, receiver typing and signature binding; abstract interpretation of sessions (no path raises)")

prop("P21", "The printed partitioning reports the statistics of the subregions",
     "show_partitioning prints, for the tree of the kept splits (default) or of all splits (only_important=False), every node once, depth first, with its index, its name with the (rescaled) positions of the splits leading to it, its heterogeneity, number of instances and weight; then, per level, the population-weighted heterogeneity and its absolute and relative drop from the previous level. describe_subregions prints, per level, the (rescaled) position of the split, the weighted heterogeneity before and after it with the absolute and relative drop, and the numbers of instances before and after. (Relative drops are stated where the heterogeneity before is positive.)",
     ["inputs", "configurations"], "all trees up to depth two with arbitrary heterogeneities and rows, scaled or not, kept or all splits, features given as a number or a list",
     "Printed text is not asserted by any test.",
     ["partitioning.py", "regional_effect.py"],
     [("tree and level statistics", "effector/partitioning.py: Tree.show_full_tree, get_level_stats, show_level_stats"), ("descriptions", "effector/regional_effect.py: show_partitioning, describe_subregions")],
     technique="abstract interpretation recording printed texts as literals and formatted terms; congruence of the printed numbers with those of the tree")

prop("P22", "A refused call leaves the object as it was",
     "When a call is refused with an exception because of an option outside the documented set (a centering, a heterogeneity display, a binning method, bins that cannot be built, features, a minimum subregion size, a depth, a subregion that does not exist), the object is left as it was: an effect fitted before evaluates to what it did, an effect not yet fitted can be fitted and evaluates to what a fresh object gives, a call about one feature leaves the other features unfitted, and the subregions found by a regional effect stay as they were. A model that fails while the H-index is fitted leaves no unfinished result behind: once it works again, the values shown are those of a fresh object.",
     ["histories", "inputs"], "global and regional methods, each refused call before and after a fit, all data",
     "No test makes a refused call and goes on to use the object; the defect shows only in the results of later calls.",
     ["global_effect_ale.py", "global_effect_pdp.py", "global_effect_shap.py", "regional_effect.py", "regional_effect_ale.py", "regional_effect_pdp.py", "regional_effect_shap.py", "helpers.py"],
     [("checks before state changes", "effector/global_effect_*.py: fit, eval, plot; effector/regional_effect_*.py: fit")],
     technique="abstract interpretation of refused-call histories; congruence of the results with those of the history without the call")

prop("P23", "The model is called when fitting, not for every look at the result",
     "Once a feature of an ALE, RHALE or SHAP dependence effect is fitted (with the centering asked for), evaluating and plotting it (with or without centering, and after other features were fitted) calls neither the model, nor its Jacobian, nor SHAP. RHALE takes the instance effects given by the caller without calling the Jacobian or the model, and otherwise computes them once for all features and fits. An average output given by the caller is used as it is; otherwise it is the mean of the model over the data.",
     ["histories", "configurations"], "all data, every centering, given or computed instance effects and averages",
     "Tests look at values, not at how often an expensive model is called; a repeated call returns the same values.",
     ["global_effect.py", "global_effect_ale.py", "global_effect_shap.py"],
     [("local effects", "effector/global_effect_ale.py: RHALE.compile, RHALE._fit_feature"), ("refit", "effector/global_effect.py: refit; effector/global_effect_shap.py: fit, eval, plot")],
     technique="effect analysis by abstract interpretation: events of model, Jacobian and SHAP calls on every path")

prop("P24", "Constructors derive what is left out from the data and keep what is given",
     "Axis limits left out are the minimum and maximum of each feature over the data (in a global effect over the rows in use, in a regional effect over all rows given, also when fewer instances are asked for), feature types left out are categorical exactly for the features with fewer than cat_limit distinct values among all rows given, names left out are x_0, x_1, ... and y, and the average output left out is the mean of the model over the rows in use; each of them is taken unchanged when the caller gives it. A new object has no fitted feature and holds all the rows asked for, in order, when all are asked for.",
     ["inputs", "configurations"], "all global and regional methods, all data, any category limit, given or left out",
     "Tests use fixed data sets and given limits and types; the derivation quantifies over all data.",
     ["global_effect.py", "regional_effect.py", "helpers.py", "utils.py", "interaction.py"],
     [("derivation", "effector/helpers.py: axis_limits_from_data, get_feature_names; effector/utils.py: get_feature_types"), ("constructors", "effector/global_effect.py: GlobalEffectBase.__init__; effector/regional_effect.py: RegionalEffectBase.__init__")],
     technique="abstract interpretation of the constructors over symbolic data; congruence with the documented defaults")


def main():
    from sa import registry, lints, binding
    have = set(registry.CASES) | set(lints.RULES)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, claimed, tech, note, reason in P:
        i = d["id"]
        if claimed and i in have:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               technique=tech or TECH, level="other", level_note=note or NOTE, evidence_file="evidence/%s.json" % i))
        else:
            na.append(dict(property=i, reason=reason or "no check built yet"))
    m = dict(version=1, setup_cmd="python3 -m compileall -q sa spec check.py", checks=checks, not_applicable=na,
             notes="Static analysis only: the checks read /repo/effector/*.py, never import or run it. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
