From b5105e607cca2575780eeec6151cd13eb0effab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 01/38] fix: keep instance effects (not data) for nodes below
 level 1 in splits_to_tree

---
 effector/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index c590a3a..7b1b14f 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -434,7 +434,7 @@ class Regions:
             # update parent_level_nodes
             parent_level_nodes = new_parent_level_nodes
             parent_level_data = new_parent_level_data
-            parent_level_data_effect = new_parent_level_data
+            parent_level_data_effect = new_parent_level_data_effect
 
         return tree
 
-- 
2.43.0


From bb5cd0de26812ca13dbbdf9c600a33fd7d31d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 02/38] fix: split numerical features at <= / >, as the
 subregion names and DataTransformer say

---
 effector/partitioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index 7b1b14f..cbe3de5 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -312,8 +312,8 @@ class Regions:
             ind_1 = x[:, feature] == position
             ind_2 = x[:, feature] != position
         else:
-            ind_1 = x[:, feature] < position
-            ind_2 = x[:, feature] >= position
+            ind_1 = x[:, feature] <= position
+            ind_2 = x[:, feature] > position
 
         if x_jac is None:
             X1 = x[ind_1, :]
-- 
2.43.0


From 159b188102d7051d3efd59305668285185525e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 03/38] fix: compute_local_effects divides by the width of each
 point's own bin and leaves limits untouched

---
 effector/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index a783977..3735110 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -50,8 +50,9 @@ def compute_local_effects(
     assert limits[-1] >= np.max(data[:, feature])
 
     # for each point, find the bin-index it belongs to
-    limits[-1] += EPS
-    ind = np.digitize(data[:, feature], limits)
+    limits_enh = copy.deepcopy(limits).astype(float)
+    limits_enh[-1] += EPS
+    ind = np.digitize(data[:, feature], limits_enh)
     assert np.alltrue(ind > 0)
 
     # compute effect
@@ -59,7 +60,7 @@ def compute_local_effects(
     left_lim = copy.deepcopy(data)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
-    dx = limits[1] - limits[0]
+    dx = limits[ind] - limits[ind - 1]
     data_effect = model(right_lim) - model(left_lim)
     return np.squeeze(data_effect) / dx
 
-- 
2.43.0


From 12344514c17c8c0ab30c8072406153e772c0481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 04/38] fix: fitting or evaluating a (d-)PDP feature no longer
 drops instances for the other features

---
 effector/global_effect_pdp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 36bd8fd..d79ac8c 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -41,9 +41,9 @@ class PDPBase(GlobalEffectBase):
             )
         else:
             if self.model_jac is not None:
-                y = method(self.model_jac, self.data, xx, feature, False, True, True)
+                y = method(self.model_jac, data, xx, feature, False, True, True)
             else:
-                y = method(self.model, self.data, xx, feature, False, False, True, True)
+                y = method(self.model, data, xx, feature, False, False, True, True)
         return y
 
     def _fit_feature(
@@ -55,9 +55,7 @@ class PDPBase(GlobalEffectBase):
     ) -> dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
-        data = self.data
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
             xx = np.linspace(
@@ -169,7 +167,8 @@ class PDPBase(GlobalEffectBase):
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
 
         # new implementation
-        yy = self._predict(self.data, xs, feature, use_vectorized)
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
+        yy = self._predict(data, xs, feature, use_vectorized)
 
         if centering:
             norm_consts = np.expand_dims(
-- 
2.43.0


From 3e342288da214e141614f113d6bae4d00bddc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/38] fix: fitting a SHAP-DP feature no longer drops
 instances for the other features

---
 effector/global_effect_shap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 0c3ceee..f280ba9 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -102,11 +102,9 @@ class ShapDP(GlobalEffectBase):
     ) -> typing.Dict:
 
         # drop points outside of limits
-        self.data = self.data[self.data[:, feature] >= self.axis_limits[0, feature]]
-        self.data = self.data[self.data[:, feature] <= self.axis_limits[1, feature]]
+        data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         # compute shap values
-        data = self.data
         shap_explainer = shap.Explainer(self.model, data)
         explanation = shap_explainer(data)
 
@@ -298,7 +296,9 @@ class ShapDP(GlobalEffectBase):
         )
 
         # get some SHAP values
-        _, ind = helpers.prep_nof_instances(nof_shap_values, self.data.shape[0])
+        _, ind = helpers.prep_nof_instances(
+            nof_shap_values, self.feature_effect["feature_" + str(feature)]["xx"].shape[0]
+        )
         yy = (
             self.feature_effect["feature_" + str(feature)]["yy"][ind]
             if heterogeneity == "shap_values"
-- 
2.43.0


From c9b19ed82a0ef9fcd911534bbf036a9a1eb1d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 06/38] fix: RHALE.fit accepts the documented "dp" binning
 method

---
 effector/global_effect_ale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 9bd057e..759c538 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -547,7 +547,7 @@ class RHALE(ALEBase):
         """
         assert binning_method in [
             "greedy",
-            "dynamic",
+            "dp",
             "fixed"
         ] or isinstance(
             binning_method, bm.Greedy
-- 
2.43.0


From 619f6387f824d5d8abb3eeedee405412e841fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 07/38] fix: re-centering on eval/plot keeps the binning_method
 / points_for_centering given to fit

---
 effector/global_effect.py      | 5 +++++
 effector/global_effect_ale.py  | 3 ++-
 effector/global_effect_pdp.py  | 4 +++-
 effector/global_effect_shap.py | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect.py b/effector/global_effect.py
index 166184c..ae4bc14 100644
--- a/effector/global_effect.py
+++ b/effector/global_effect.py
@@ -119,6 +119,11 @@ class GlobalEffectBase(ABC):
                     return True
         return False
 
+    def _fit_args(self, feature):
+        """Arguments (apart from centering) of the last fit of the feature, to be reused when refitting."""
+        args = self.method_args.get("feature_" + str(feature), {})
+        return {key: val for key, val in args.items() if key != "centering"}
+
     @abstractmethod
     def eval(
         self,
diff --git a/effector/global_effect_ale.py b/effector/global_effect_ale.py
index 759c538..5921242 100644
--- a/effector/global_effect_ale.py
+++ b/effector/global_effect_ale.py
@@ -85,6 +85,7 @@ class ALEBase(GlobalEffectBase):
             self.is_fitted[s] = True
             self.method_args["feature_" + str(s)] = {
                 "centering": centering,
+                "binning_method": binning_method,
             }
 
     def _eval_unnorm(self, feature: int, x: np.ndarray, heterogeneity: bool = False):
@@ -138,7 +139,7 @@ class ALEBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index d79ac8c..720c274 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -161,7 +161,9 @@ class PDPBase(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering, use_vectorized=use_vectorized)
+            self.fit(
+                features=feature, centering=centering, use_vectorized=use_vectorized, **self._fit_args(feature)
+            )
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index f280ba9..3addedc 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -228,7 +228,7 @@ class ShapDP(GlobalEffectBase):
         centering = helpers.prep_centering(centering)
 
         if self.refit(feature, centering):
-            self.fit(features=feature, centering=centering)
+            self.fit(features=feature, centering=centering, **self._fit_args(feature))
 
         # Check if the lower bound is less than the upper bound
         assert self.axis_limits[0, feature] < self.axis_limits[1, feature]
-- 
2.43.0


From cf568a469c9a0de6d7eb1d4e4740e02a0c307652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 08/38] fix: RegionalALE.plot shows the ALE effect, not RHALE

---
 effector/regional_effect_ale.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index a101627..88c4bf3 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -315,11 +315,11 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
-        rhale.fit(features=feature, binning_method=binning_method, centering=centering)
+        ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
+        ale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)
 
 
 def prep_binning_method(method):
-- 
2.43.0


From d40f0d1896cd1d8c37a383cf831517decdeeefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/38] fix: RegionalALE and RegionalRHALE plots use the
 target_name given by the user

---
 effector/regional_effect_ale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 88c4bf3..ba569fa 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -167,7 +167,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names)
+        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         rhale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
@@ -315,7 +315,7 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names)
+        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-- 
2.43.0


From 805bfe8680dfbed2522a235eff6ffcef2697e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 10/38] fix: RegionalPDP/RegionalDerPDP.fit honours centering
 when measuring heterogeneity

---
 effector/regional_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 9bb6c93..ee67e02 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -55,7 +55,7 @@ class RegionalPDPBase(RegionalEffectBase):
 
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
             try:
-                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, use_vectorized=use_vectorized)
+                _, z = pdp.eval(feature=foi, xs=xx, heterogeneity=True, centering=centering, use_vectorized=use_vectorized)
             except:
                 return BIG_M
             return np.mean(z)
-- 
2.43.0


From b314a7e50733a37c3e7a778462998ac52aa180c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 11/38] fix: regional eval/plot use all the instances of the
 subregion, not a random subset

---
 effector/regional_effect.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 3a549c1..6d9b687 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -158,15 +158,15 @@ class RegionalEffectBase:
 
     def _create_fe_object(self, data, data_effect, feature_names):
         if self.method_name == "rhale":
-            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)
+            return RHALE(data, self.model, self.model_jac, nof_instances="all", data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "ale":
-            return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ALE(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From f0f7a8ba1fa64233223ba7be323586eda64d4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 12/38] fix: regional eval/plot use the binning_method /
 points_for_centering given to the regional fit

---
 effector/regional_effect.py     |  7 +++++++
 effector/regional_effect_ale.py |  4 ++--
 effector/regional_effect_pdp.py | 13 ++++++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index 6d9b687..ded6b50 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -170,6 +170,11 @@ class RegionalEffectBase:
         else:
             raise NotImplementedError
 
+    def _fit_args(self, feature):
+        """Arguments of the last regional fit that concern the effect inside each subregion."""
+        args = self.method_args.get("feature_" + str(feature), {})
+        return {key: args[key] for key in ["binning_method", "points_for_centering"] if key in args}
+
     def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):
         """
         Evaluate the regional effect for a given feature and node.
@@ -197,6 +202,7 @@ class RegionalEffectBase:
         centering = helpers.prep_centering(centering)
         data, data_effect, _ = self.get_node_info(feature, node_idx)
         fe_method = self._create_fe_object(data, data_effect, None)
+        fe_method.fit(features=feature, centering=centering, **self._fit_args(feature))
         return fe_method.eval(feature, xs, heterogeneity, centering)
 
     def fit(self, *args, **kwargs):
@@ -221,6 +227,7 @@ class RegionalEffectBase:
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
         fe_method = self._create_fe_object(data, data_effect, feature_names)
+        fe_method.fit(features=feature, centering=centering, **self._fit_args(feature))
 
         return fe_method.plot(
             feature=feature,
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index ba569fa..b4a7c07 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -141,7 +141,7 @@ class RegionalRHALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": prep_binning_method(binning_method),
             }
 
     def plot(self,
@@ -288,7 +288,7 @@ class RegionalALE(RegionalEffectBase):
                 "min_points_per_subregion": min_points_per_subregion,
                 "candidate_conditioning_features": candidate_conditioning_features,
                 "split_categorical_features": split_categorical_features,
-                "binning_method": binning_method,
+                "binning_method": prep_binning_method(binning_method),
                 "centering": centering,
             }
 
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index ee67e02..3e5004c 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -108,7 +108,18 @@ class RegionalPDPBase(RegionalEffectBase):
                 split_categorical_features,
             )
 
-            # todo add methdod args
+            self.method_args["feature_" + str(feat)] = {
+                "heter_pcg_drop_thres": heter_pcg_drop_thres,
+                "heter_small_enough": heter_small_enough,
+                "max_depth": max_depth,
+                "nof_candidate_splits_for_numerical": nof_candidate_splits_for_numerical,
+                "min_points_per_subregion": min_points_per_subregion,
+                "candidate_conditioning_features": candidate_conditioning_features,
+                "split_categorical_features": split_categorical_features,
+                "centering": centering,
+                "nof_instances": nof_instances,
+                "points_for_centering": points_for_centering,
+            }
 
 
 class RegionalPDP(RegionalPDPBase):
-- 
2.43.0


From e5eca7fc61896dbabe022aa01b64861dabef0dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 13/38] fix: a plot with scale_x_list no longer leaves stale
 scaled subregions behind

---
 effector/regional_effect.py     | 14 ++++----------
 effector/regional_effect_ale.py | 12 ++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index ded6b50..bf37576 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -82,8 +82,6 @@ class RegionalEffectBase:
         self.partitioners: typing.Dict[str, Regions] = {}
         self.tree_full: typing.Dict[str, Tree] = {}
         self.tree_pruned: typing.Dict[str, Tree] = {}
-        self.tree_full_scaled: typing.Dict[str, Tree] = {}
-        self.tree_pruned_scaled: typing.Dict[str, Tree] = {}
 
     def _fit_feature(
         self,
@@ -135,12 +133,12 @@ class RegionalEffectBase:
         if not self.is_fitted[feature]:
             self.fit(feature)
 
-    def get_node_info(self, feature, node_idx):
+    def get_node_info(self, feature, node_idx, scale_x_list=None):
         assert self.is_fitted[feature], "Feature {} has not been fitted yet".format(feature)
         assert self.tree_pruned["feature_{}".format(feature)] is not None, "Feature {} has no splits".format(feature)
 
-        if self.tree_pruned_scaled is not None and "feature_{}".format(feature) in self.tree_pruned_scaled.keys():
-            tree = self.tree_pruned_scaled["feature_{}".format(feature)]
+        if scale_x_list is not None:
+            tree = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
         else:
             tree = self.tree_pruned["feature_{}".format(feature)]
 
@@ -219,11 +217,7 @@ class RegionalEffectBase:
 
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
         fe_method = self._create_fe_object(data, data_effect, feature_names)
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index b4a7c07..2b1dcf3 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -157,11 +157,7 @@ class RegionalRHALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
@@ -305,11 +301,7 @@ class RegionalALE(RegionalEffectBase):
         # get data from the node
         self.refit(feature)
 
-        if scale_x_list is not None:
-            self.tree_full_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(False, scale_x_list)
-            self.tree_pruned_scaled["feature_{}".format(feature)] = self.partitioners["feature_{}".format(feature)].splits_to_tree(True, scale_x_list)
-
-        data, data_effect, name = self.get_node_info(feature, node_idx)
+        data, data_effect, name = self.get_node_info(feature, node_idx, scale_x_list)
         feature_names = copy.deepcopy(self.feature_names)
         feature_names[feature] = name
 
-- 
2.43.0


From 27b7c9334b0b6c5fe2f044ec405495c98147272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 14/38] fix: HIndex and REPID call the PDP functions with
 arguments that exist

---
 effector/interaction.py | 458 ++++++++++++++++++++--------------------
 1 file changed, 229 insertions(+), 229 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index cfa6e04..edf45d4 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,229 +1,229 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, uncertainty=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
-        for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits)
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std, stderr = pdp.eval(feature=feat, xs=x, uncertainty=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w
+        mu = np.mean(self.interaction_matrix)
+        for i in range(self.nof_features):
+            self.interaction_matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(self.interaction_matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = True
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From 963979f0f4f9d9dc7b58c3d0ba7baebedf60e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 15/38] fix: HIndex.eval_one_vs_all centers the model output,
 as the H-statistic requires

---
 effector/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/interaction.py b/effector/interaction.py
index edf45d4..6b8a28b 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -106,6 +106,7 @@ class HIndex:
         pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
 
         yy = self.model(self.data)
+        yy = yy - np.mean(yy)
         nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
         denom = np.mean(np.square(yy))
         interaction = nom / denom
-- 
2.43.0


From 6e593766281c2104cd92d0ebaac73b0fa5beeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 16/38] fix: plotting the H-index matrix does not overwrite the
 stored interaction values

---
 effector/interaction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 6b8a28b..1877c22 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -141,17 +141,18 @@ class HIndex:
         plt.figure(figsize=(10, 10))
         plt.title("Interaction Matrix")
         # assign the mean to the diagonal values w
-        mu = np.mean(self.interaction_matrix)
+        matrix = np.copy(self.interaction_matrix)
+        mu = np.mean(matrix)
         for i in range(self.nof_features):
-            self.interaction_matrix[i, i] = mu
+            matrix[i, i] = mu
 
         # plot as a heatmap
-        plt.imshow(self.interaction_matrix)
+        plt.imshow(matrix)
         plt.colorbar()
         # show grid values
         for i in range(self.nof_features):
             for j in range(self.nof_features):
-                plt.text(j, i, round(self.interaction_matrix[i, j], 2), ha="center", va="center", color="w")
+                plt.text(j, i, round(matrix[i, j], 2), ha="center", va="center", color="w")
 
         plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
         plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-- 
2.43.0


From 7c4d9397862734a7c0a39f71c59356afc9753c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 17/38] fix: pdp_nd_non_vectorized pairs each feature with its
 column of x

---
 effector/global_effect_pdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 720c274..853675f 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -617,7 +617,7 @@ def pdp_nd_non_vectorized(
         x_new = copy.deepcopy(data)
 
         # set the features of all datapoints to the values of the k-th position
-        for j, feat in features:
+        for j, feat in enumerate(features):
             x_new[:, feat] = x[k, j]
 
         # compute the prediction or the Jacobian wrt the input
-- 
2.43.0


From 84c29cd0ce2d0ef227892ec69c6e6345d678d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 18/38] fix: Fixed.find reports an impossible binning instead
 of crashing on a constant feature

---
 effector/bin_splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index 4bdef24..f30d4cc 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -364,6 +364,7 @@ class Fixed(BinBase):
 
         if self._none_valid_binning():
             self.limits = False
+            return self.limits
 
         if self._is_categorical(cat_limit):
             return self.limits
-- 
2.43.0


From 9c5e4a1cf9049b391aed38e67a627590377c8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 19/38] fix: forbidden bins cost infinity, so large effect
 variances cannot make DP choose them

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f30d4cc..f597fc1 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -7,7 +7,7 @@ import matplotlib.pyplot as plt
 
 
 class BinBase:
-    big_M = helpers.BIG_M
+    big_M = np.inf
 
     def __init__(self,
                  feature: int,
-- 
2.43.0


From 5372703e0f88cdc9d1fec4566bd48aa3d2d2380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 20/38] fix: an empty bin has no NaN cost, which DP would
 select as the optimum

---
 effector/bin_splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/bin_splitting.py b/effector/bin_splitting.py
index f597fc1..b84874b 100644
--- a/effector/bin_splitting.py
+++ b/effector/bin_splitting.py
@@ -49,7 +49,7 @@ class BinBase:
         )
 
         # compute cost
-        if data_effect.size < min_points:
+        if data_effect.size < min_points or data_effect.size == 0:
             cost = self.big_M
         else:
             discount_for_more_points = 1 - discount * (data_effect.size / nof_points)
-- 
2.43.0


From ca2d233ac5125324cd170ddb5b40938864a9c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 21/38] fix: ale_plot scales the bin effects when only one of
 scale_x, scale_y is given

---
 effector/visualization.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 4dde363..116eb54 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -76,16 +76,10 @@ def ale_plot(
         if scale_x is None
         else trans_scale(ale_params["dx"], scale_x["std"])
     )
-    bin_variance = (
-        ale_params["bin_variance"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_variance"], scale_x["std"], scale_y["std"], True)
-    )
-    bin_effect = (
-        ale_params["bin_effect"]
-        if scale_y is None
-        else trans_bin(ale_params["bin_effect"], scale_x["std"], scale_y["std"])
-    )
+    std_x = 1.0 if scale_x is None else scale_x["std"]
+    std_y = 1.0 if scale_y is None else scale_y["std"]
+    bin_variance = trans_bin(ale_params["bin_variance"], std_x, std_y, True)
+    bin_effect = trans_bin(ale_params["bin_effect"], std_x, std_y)
 
     # PLOT
     fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)
-- 
2.43.0


From 19cafc4684bb7eb9c82055a67dd4133b39f326dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 22/38] fix: plot_shap with scale_x/scale_y no longer crashes
 when SHAP values are not shown

---
 effector/visualization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index 116eb54..dddf43b 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -248,13 +248,14 @@ def plot_shap(
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-    xx = xx if scale_x is None else trans_affine(xx, scale_x["mean"], scale_x["std"])
+    if scale_x is not None and xx is not None:
+        xx = trans_affine(xx, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
     if scale_y is not None:
         y_std = trans_scale(y_std, scale_y["std"], square=False)
         y = trans_affine(y, scale_y["mean"], scale_y["std"])
-        yy = trans_affine(yy, scale_y["mean"], scale_y["std"])
+        yy = trans_affine(yy, scale_y["mean"], scale_y["std"]) if yy is not None else None
         # if avg_output is not None:
         #     avg_output = trans_scale(avg_output, scale_y["std"], square=False)
 
-- 
2.43.0


From 5138c8c0fb69abd7791de1637f9c832368983138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 23/38] fix: the std_err band of the PDP plot is the standard
 error, not the standard deviation

---
 effector/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index dddf43b..9de03ae 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -159,7 +159,7 @@ def plot_pdp_ice(
 
     y_ice_outputs = yy
     std = np.std(y_ice_outputs, axis=1)
-    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))
+    std_err = std / np.sqrt(y_ice_outputs.shape[1])
 
     # scale x-axis
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
-- 
2.43.0


From 2ca47789af0216338fb3ef77c43a319c8f864b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 24/38] fix: d-PDP plots scale the derivative (std_y / std_x)
 instead of shifting it like an output

---
 effector/global_effect_pdp.py |  1 +
 effector/visualization.py     | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 853675f..2323cbe 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -257,6 +257,7 @@ class PDPBase(GlobalEffectBase):
             avg_output=avg_output,
             feature_names=self.feature_names,
             target_name=self.target_name,
+            is_derivative=self.method_name != "pdp",
             nof_ice=nof_ice,
             y_limits=y_limits,
         )
diff --git a/effector/visualization.py b/effector/visualization.py
index 9de03ae..f68d4c8 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -165,15 +165,18 @@ def plot_pdp_ice(
     x = x if scale_x is None else trans_affine(x, scale_x["mean"], scale_x["std"])
 
     # scale y-axis
-    if scale_y is not None:
+    if is_derivative:
+        std_x = 1.0 if scale_x is None else scale_x["std"]
+        std_y = 1.0 if scale_y is None else scale_y["std"]
+        std = trans_bin(std, std_x, std_y)
+        std_err = trans_bin(std_err, std_x, std_y)
+        y_pdp_output = trans_bin(y_pdp_output, std_x, std_y)
+        y_ice_outputs = trans_bin(y_ice_outputs, std_x, std_y)
+    elif scale_y is not None:
         std = trans_scale(std, scale_y["std"], square=False)
         std_err = trans_scale(std_err, scale_y["std"], square=False)
-        if is_derivative:
-            y_pdp_output = trans_scale(y_pdp_output, scale_y["std"], square=False)
-            y_ice_outputs = trans_scale(y_ice_outputs, scale_y["std"], square=False)
-        elif not is_derivative:
-            y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
-            y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
+        y_pdp_output = trans_affine(y_pdp_output, scale_y["mean"], scale_y["std"])
+        y_ice_outputs = trans_affine(y_ice_outputs, scale_y["mean"], scale_y["std"])
 
     # if avg_output is not None and scale_y is not None:
     #     if not is_derivative:
-- 
2.43.0


From 6505a4be29ccb6b1d815e09799b91e308126f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 25/38] fix: plots label unnamed features x_0, x_1, ... as
 documented

---
 effector/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effector/visualization.py b/effector/visualization.py
index f68d4c8..bd7e4d9 100644
--- a/effector/visualization.py
+++ b/effector/visualization.py
@@ -98,7 +98,7 @@ def ale_plot(
 
     ax1.set_ylim(y_limits[0], y_limits[1]) if y_limits is not None else None
 
-    x_name = "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+    x_name = "x_%d" % feature if feature_names is None else feature_names[feature]
     ax2.set_xlabel(x_name)
     ax2.set_ylabel("dy/dx")
 
@@ -215,7 +215,7 @@ def plot_pdp_ice(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     if is_derivative:
@@ -282,7 +282,7 @@ def plot_shap(
         ax.axhline(y=avg_output, color="black", linestyle="--", label="avg output")
 
     feature_name = (
-        "x_%d" % (feature + 1) if feature_names is None else feature_names[feature]
+        "x_%d" % feature if feature_names is None else feature_names[feature]
     )
     ax.set_xlabel(feature_name)
     ax.set_ylabel("y") if target_name is None else ax.set_ylabel(target_name)
-- 
2.43.0


From 16e869f2062212b82df0a4993d4e7051f1aa3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 26/38] fix: SHAP-DP is centered over the axis limits, like the
 other methods

---
 effector/global_effect_shap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index 3addedc..d0bed33 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -126,11 +126,12 @@ class ShapDP(GlobalEffectBase):
 
         # compute norm constant
         if centering == "zero_integral":
-            x_norm = np.linspace(xx[0], xx[-1], points_for_centering)
+            start, stop = self.axis_limits[0, feature], self.axis_limits[1, feature]
+            x_norm = np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
-            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])
+            norm_const = np.trapz(y_norm, x_norm) / (stop - start)
         elif centering == "zero_start":
-            norm_const = spline_mean(xx[0])
+            norm_const = spline_mean(self.axis_limits[0, feature])
         else:
             norm_const = helpers.EMPTY_SYMBOL
 
-- 
2.43.0


From 42a8d21d47e203fcceff2c05318252b8a00b326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 27/38] fix: integer design matrices no longer truncate the
 query points of PDP, ALE and the numerical Jacobian

---
 effector/global_effect_pdp.py | 10 +++++-----
 effector/utils.py             |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index 2323cbe..c4fc70a 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -466,7 +466,7 @@ def pdp_1d_non_vectorized(
     y_list = []
     if ask_for_derivatives and not model_returns_jac:
         for k in range(nof_instances):
-            x_new = copy.deepcopy(data)
+            x_new = data.astype(float)
             x_new[:, feature] = x[k] + 1e-6
             y_1 = model(x_new)
             x_new[:, feature] = x[k] - 1e-6
@@ -476,7 +476,7 @@ def pdp_1d_non_vectorized(
         y = np.array(y_list)
     else:
         for k in range(nof_instances):
-            x_new = copy.deepcopy(data)
+            x_new = data.astype(float)
             x_new[:, feature] = x[k]
             y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
             y_list.append(y)
@@ -540,7 +540,7 @@ def pdp_1d_vectorized(
     """
 
     nof_instances = data.shape[0]
-    x_new = copy.deepcopy(data)
+    x_new = data.astype(float)
     x_new = np.expand_dims(x_new, axis=0)
     x_new = np.repeat(x_new, x.shape[0], axis=0)
 
@@ -615,7 +615,7 @@ def pdp_nd_non_vectorized(
     stderr = []
     for k in range(K):
         # take all dataset
-        x_new = copy.deepcopy(data)
+        x_new = data.astype(float)
 
         # set the features of all datapoints to the values of the k-th position
         for j, feat in enumerate(features):
@@ -683,7 +683,7 @@ def pdp_nd_vectorized(
 
     assert len(features) == x.shape[1]
     nof_instances = data.shape[0]
-    x_new = copy.deepcopy(data)
+    x_new = data.astype(float)
     x_new = np.expand_dims(x_new, axis=0)
     x_new = np.repeat(x_new, x.shape[0], axis=0)
     for j in range(len(features)):
diff --git a/effector/utils.py b/effector/utils.py
index 3735110..26f7ded 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -56,8 +56,8 @@ def compute_local_effects(
     assert np.alltrue(ind > 0)
 
     # compute effect
-    right_lim = copy.deepcopy(data)
-    left_lim = copy.deepcopy(data)
+    right_lim = data.astype(float)
+    left_lim = data.astype(float)
     right_lim[:, feature] = limits[ind]
     left_lim[:, feature] = limits[ind - 1]
     dx = limits[ind] - limits[ind - 1]
@@ -472,9 +472,9 @@ def compute_jacobian_numerically(
 
     """
     assert data.ndim == 2
-    jacobian = np.zeros_like(data)
+    jacobian = np.zeros(data.shape)
     for f in range(data.shape[1]):
-        data_plus = copy.deepcopy(data)
+        data_plus = data.astype(float)
         data_plus[:, f] += eps
         jacobian[:, f] = (model(data_plus) - model(data)) / eps
     return jacobian
-- 
2.43.0


From 2e8d2cdb8723c542ccd33490d84b6305765f184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 28/38] fix: RegionalShapDP rejects a candidate subregion too
 small for a spline, as its siblings do, instead of crashing

---
 effector/regional_effect_shap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 0349659..93e3a3d 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -85,7 +85,10 @@ class RegionalShapDP(RegionalEffectBase):
             xx = np.linspace(axis_limits[:, foi][0], axis_limits[:, foi][1], 10)
 
             shap = ShapDP(data, self.model, None, self.nof_instances)
-            shap.fit(foi, centering, points_for_centering)
+            try:
+                shap.fit(foi, centering, points_for_centering)
+            except:
+                return self.big_m
             _, z = shap.eval(foi, xx, heterogeneity=True)
             return np.mean(z)
 
-- 
2.43.0


From cf36f7bfeaba1a14a48af97ccbc1513bfdd7e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 29/38] fix: regional eval/plot honour the axis_limits given by
 the user

---
 effector/regional_effect.py     | 13 +++++++------
 effector/regional_effect_ale.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/effector/regional_effect.py b/effector/regional_effect.py
index bf37576..e1f4bd0 100644
--- a/effector/regional_effect.py
+++ b/effector/regional_effect.py
@@ -46,7 +46,8 @@ class RegionalEffectBase:
         self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None
         self.dim = self.data.shape[1]
 
-        # set axis_limits
+        # set axis_limits; inside each subregion, use the ones of the user (if any)
+        self.subregion_axis_limits = axis_limits
         axis_limits = (
             helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits
         )
@@ -156,15 +157,15 @@ class RegionalEffectBase:
 
     def _create_fe_object(self, data, data_effect, feature_names):
         if self.method_name == "rhale":
-            return RHALE(data, self.model, self.model_jac, nof_instances="all", data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)
+            return RHALE(data, self.model, self.model_jac, nof_instances="all", axis_limits=self.subregion_axis_limits, data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "ale":
-            return ALE(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
+            return ALE(data, self.model, nof_instances="all", axis_limits=self.subregion_axis_limits, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "shap":
-            return ShapDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
+            return ShapDP(data, self.model, nof_instances="all", axis_limits=self.subregion_axis_limits, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "pdp":
-            return PDP(data, self.model, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
+            return PDP(data, self.model, nof_instances="all", axis_limits=self.subregion_axis_limits, feature_names=feature_names, target_name=self.target_name)
         elif self.method_name == "d-pdp":
-            return DerPDP(data, self.model, self.model_jac, nof_instances="all", feature_names=feature_names, target_name=self.target_name)
+            return DerPDP(data, self.model, self.model_jac, nof_instances="all", axis_limits=self.subregion_axis_limits, feature_names=feature_names, target_name=self.target_name)
         else:
             raise NotImplementedError
 
diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 2b1dcf3..3e9dbe0 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -163,7 +163,7 @@ class RegionalRHALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, None, data_effect, feature_names=feature_names, target_name=self.target_name)
+        rhale = RHALE(data, self.model, self.model_jac, self.nof_instances, self.subregion_axis_limits, data_effect, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         rhale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
@@ -307,7 +307,7 @@ class RegionalALE(RegionalEffectBase):
 
         # define the method and fit
         self.method_args["feature_" + str(feature)]["heterogeneity"] = heterogeneity
-        ale = ALE(data, self.model, self.nof_instances, feature_names=feature_names, target_name=self.target_name)
+        ale = ALE(data, self.model, self.nof_instances, self.subregion_axis_limits, feature_names=feature_names, target_name=self.target_name)
         binning_method = prep_binning_method(self.method_args["feature_" + str(feature)]["binning_method"])
         ale.fit(features=feature, binning_method=binning_method, centering=centering)
         scale_x = scale_x_list[feature] if scale_x_list is not None else None
-- 
2.43.0


From ac254256246609961aeb125c56e897fbe95c3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 30/38] fix: REPID.plot computes the features not yet fitted
 instead of drawing their placeholder

---
 effector/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 1877c22..8f6a677 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -195,7 +195,7 @@ class REPID:
         for i, feat in enumerate(features):
             print("Feature: ", feat)
             self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = True
+        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
 
     def eval_one_vs_all(self, feat):
         if self.one_vs_all_matrix[feat] != self.empty_symbol:
-- 
2.43.0


From 14ab574e68bf061bddfbeb9a27f74c8a680646bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 31/38] fix: DataTransformer looks up the splits of each
 feature by name, not by their order in the dictionary

---
 effector/partitioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index cbe3de5..a5203fd 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -584,7 +584,8 @@ class DataTransformer:
     def transform(self, X):
         # feat_mapping <- to how many features each feature is mapped
         feat_mapping = []
-        for split in self.splits.values():
+        for feat in range(X.shape[1]):
+            split = self.splits["feat_{}".format(feat)]
             if len(split) == 0:
                 feat_mapping.append(1)
             else:
-- 
2.43.0


From 6c5ed390aab2248da532b9ab96e69a891ff645bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 32/38] fix: show_partitioning no longer divides by zero after
 a level with zero heterogeneity

---
 effector/partitioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index a5203fd..fcc5cdf 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -573,7 +573,9 @@ class Tree:
             if lev == 0:
                 print("    " * lev*2 + "Level %.d, heter: %.2f" % (lev, level_stats['heterogeneity']))
             else:
-                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], prev_heter - level_stats['heterogeneity'], 100*(prev_heter - level_stats['heterogeneity'])/prev_heter))
+                drop = prev_heter - level_stats['heterogeneity']
+                drop_pcg = 100*drop/prev_heter if prev_heter != 0 else 0.0
+                print("    " * lev*2 + "Level %.d, heter: %.2f || heter drop: %.2f (%.2f%%)" % (lev, level_stats['heterogeneity'], drop, drop_pcg))
             prev_heter = level_stats['heterogeneity']
 
 
-- 
2.43.0


From 4dd3940def6ecbdba3cda53021196a9231260420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 33/38] fix: RegionalShapDP rejects a candidate subregion with
 a constant feature, as its siblings do, instead of crashing

---
 effector/regional_effect_shap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index 93e3a3d..a072ad8 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -87,9 +87,9 @@ class RegionalShapDP(RegionalEffectBase):
             shap = ShapDP(data, self.model, None, self.nof_instances)
             try:
                 shap.fit(foi, centering, points_for_centering)
+                _, z = shap.eval(foi, xx, heterogeneity=True)
             except:
                 return self.big_m
-            _, z = shap.eval(foi, xx, heterogeneity=True)
             return np.mean(z)
 
         return heterogeneity_function
-- 
2.43.0


From a37460748e71c9519bbc2952d65f63be98b9672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 34/38] fix: regional fit rejects an unknown centering instead
 of silently finding no splits

---
 effector/regional_effect_ale.py  | 2 ++
 effector/regional_effect_pdp.py  | 1 +
 effector/regional_effect_shap.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/effector/regional_effect_ale.py b/effector/regional_effect_ale.py
index 3e9dbe0..1f3658b 100644
--- a/effector/regional_effect_ale.py
+++ b/effector/regional_effect_ale.py
@@ -115,6 +115,7 @@ class RegionalRHALE(RegionalEffectBase):
         """
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
+        centering = helpers.prep_centering(centering)
         features = helpers.prep_features(features, self.dim)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
@@ -258,6 +259,7 @@ class RegionalALE(RegionalEffectBase):
         """
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
+        centering = helpers.prep_centering(centering)
         features = helpers.prep_features(features, self.dim)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
diff --git a/effector/regional_effect_pdp.py b/effector/regional_effect_pdp.py
index 3e5004c..bfc7c52 100644
--- a/effector/regional_effect_pdp.py
+++ b/effector/regional_effect_pdp.py
@@ -92,6 +92,7 @@ class RegionalPDPBase(RegionalEffectBase):
         """
 
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
+        centering = helpers.prep_centering(centering)
         features = helpers.prep_features(features, self.dim)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(feat, min_points_per_subregion, centering, nof_instances, points_for_centering, use_vectorized)
diff --git a/effector/regional_effect_shap.py b/effector/regional_effect_shap.py
index a072ad8..7e65e9d 100644
--- a/effector/regional_effect_shap.py
+++ b/effector/regional_effect_shap.py
@@ -125,6 +125,7 @@ class RegionalShapDP(RegionalEffectBase):
             points_for_centering: number of points to use for centering
         """
         assert min_points_per_subregion >= 2, "min_points_per_subregion must be >= 2"
+        centering = helpers.prep_centering(centering)
         features = helpers.prep_features(features, self.dim)
         for feat in tqdm(features):
             heter = self._create_heterogeneity_function(
-- 
2.43.0


From b11ccb88b53d19f65a73a63fd368f4f7a590501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 35/38] fix: interaction.py keeps its original (CRLF) line
 endings

---
 effector/interaction.py | 462 ++++++++++++++++++++--------------------
 1 file changed, 231 insertions(+), 231 deletions(-)

diff --git a/effector/interaction.py b/effector/interaction.py
index 8f6a677..a86f542 100644
--- a/effector/interaction.py
+++ b/effector/interaction.py
@@ -1,231 +1,231 @@
-import numpy as np
-import logging
-import typing
-from effector import helpers
-import effector
-from effector import DerPDP, PDP
-from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
-import tqdm
-
-class HIndex:
-    """
-    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
-    """
-
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, nof_instances=1000):
-        """
-
-        Args
-        ---
-            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
-            model (function): The model to explain, takes as input data and returns predictions
-            nof_instances (int): The number of instances to use for the explanation
-        """
-        # setters
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.model = model
-        self.nof_features = self.data.shape[1]
-
-        # init
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
-
-        # flags
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, pairwise_matrix=True, one_vs_all=True):
-        if pairwise_matrix:
-            logging.info("\nH-Index interaction matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.interaction_matrix[i, i] = 0
-                for j in range(i + 1, self.nof_features):
-                    self.eval_pairwise(i, j)
-            self.fitted_interaction_matrix = True
-            logging.info("H-Index interaction matrix: Fitting done")
-
-        if one_vs_all:
-            logging.info("\nH-Index one-vs-all matrix: Start fitting")
-            for i in range(self.nof_features):
-                print("Feature: ", i)
-                self.eval_one_vs_all(i)
-            self.fitted_one_vs_all_matrix = True
-            logging.info("H-Index one-vs-all matrix: Fitting done")
-
-    def plot(self, interaction_matrix=True, one_vs_all=True):
-        # if not fitted, fit
-        if not self.fitted_interaction_matrix and interaction_matrix:
-            self.fit(pairwise_matrix=True, one_vs_all=False)
-        if not self.fitted_one_vs_all_matrix and one_vs_all:
-            self.fit(pairwise_matrix=False, one_vs_all=True)
-
-        # plot
-        if interaction_matrix:
-            self._plot_interaction_matrix()
-        if one_vs_all:
-            self._plot_one_vs_all_matrix()
-
-    def eval_pairwise(self, feat_1, feat_2):
-        """Evaluate the interaction between feature 1 and feature 2
-
-        Args
-        ---
-            feat_1 (int): The index of feature 1
-            feat_2 (int): The index of feature 2
-
-        Returns
-        ---
-            float: The interaction between feature 1 and feature 2
-        """
-        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
-            return self.interaction_matrix[feat_1, feat_2]
-
-        x1 = self.data[:, feat_1]
-        x2 = self.data[:, feat_2]
-        pdp_1 = self._pdp_1d(feat_1, x1)
-        pdp_2 = self._pdp_1d(feat_2, x2)
-        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
-
-        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
-        denom = np.mean(np.square(pdp_12))
-        interaction = nom / denom
-
-        self.interaction_matrix[feat_1, feat_2] = interaction
-        self.interaction_matrix[feat_2, feat_1] = interaction
-        return interaction
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
-        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
-
-        yy = self.model(self.data)
-        yy = yy - np.mean(yy)
-        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
-        denom = np.mean(np.square(yy))
-        interaction = nom / denom
-
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def _pdp_1d(self, feature, x):
-        # eval normalized pdp for feature at x
-        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_2d(self, feature1, feature2, x1, x2):
-        features = [feature1, feature2]
-        x = np.stack([x1, x2], axis=-1)
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _pdp_minus_1d(self, feature, x):
-        # features are all other features
-        features = [i for i in range(self.nof_features) if i != feature]
-        assert len(features) == x.shape[1]
-
-        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
-        c = np.mean(yy)
-        return yy - c
-
-    def _plot_interaction_matrix(self):
-        import matplotlib.pyplot as plt
-        plt.figure(figsize=(10, 10))
-        plt.title("Interaction Matrix")
-        # assign the mean to the diagonal values w
-        matrix = np.copy(self.interaction_matrix)
-        mu = np.mean(matrix)
-        for i in range(self.nof_features):
-            matrix[i, i] = mu
-
-        # plot as a heatmap
-        plt.imshow(matrix)
-        plt.colorbar()
-        # show grid values
-        for i in range(self.nof_features):
-            for j in range(self.nof_features):
-                plt.text(j, i, round(matrix[i, j], 2), ha="center", va="center", color="w")
-
-        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.show()
-
-    def _plot_one_vs_all_matrix(self):
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("H-index for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("H-index")
-        plt.show()
-
-
-class REPID:
-    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
-    """
-    empty_symbol = 1e10
-
-    def __init__(self, data, model, model_jac, nof_instances):
-        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
-        self.data = data[self.indices]
-        self.dim = self.data.shape[1]
-
-        self.model = model
-        self.model_jac = model_jac
-        self.nof_instances = nof_instances
-        self.nof_features = data.shape[1]
-
-        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
-        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
-
-        self.fitted_interaction_matrix = False
-        self.fitted_one_vs_all_matrix = False
-
-    def fit(self, features: typing.Union[int, str, list] = "all",):
-        features = helpers.prep_features(features, self.dim)
-        for i, feat in enumerate(features):
-            print("Feature: ", feat)
-            self.eval_one_vs_all(feat)
-        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
-
-    def eval_one_vs_all(self, feat):
-        if self.one_vs_all_matrix[feat] != self.empty_symbol:
-            return self.one_vs_all_matrix[feat]
-
-        axis_limits = effector.helpers.axis_limits_from_data(self.data)
-        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
-        pdp.fit(feat)
-
-        # find the interaction index
-        start = axis_limits[:, feat][0]
-        stop = axis_limits[:, feat][1]
-        x = np.linspace(start, stop, 21)
-        x = 0.5 * (x[:-1] + x[1:])
-        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
-        interaction = np.mean(std)
-
-        # store the interaction index
-        self.one_vs_all_matrix[feat] = interaction
-        return interaction
-
-    def plot(self):
-        if self.fitted_one_vs_all_matrix is False:
-            self.fit()
-
-        import matplotlib.pyplot as plt
-        # plot as horizontal bar chart
-        plt.figure(figsize=(10, 10))
-        plt.title("REPID for all features")
-        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
-        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
-        plt.xlabel("REPID index")
-        plt.show()
+import numpy as np
+import logging
+import typing
+from effector import helpers
+import effector
+from effector import DerPDP, PDP
+from effector.global_effect_pdp import pdp_1d_vectorized, pdp_1d_non_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized
+import tqdm
+
+class HIndex:
+    """
+    H-Index interaction measure, as described in Friedman and Popescu (2008), https://arxiv.org/abs/0811.1679
+    """
+
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, nof_instances=1000):
+        """
+
+        Args
+        ---
+            data (np.ndarray): The dataset, shape (nof_instances, nof_features)
+            model (function): The model to explain, takes as input data and returns predictions
+            nof_instances (int): The number of instances to use for the explanation
+        """
+        # setters
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.model = model
+        self.nof_features = self.data.shape[1]
+
+        # init
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol
+
+        # flags
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, pairwise_matrix=True, one_vs_all=True):
+        if pairwise_matrix:
+            logging.info("\nH-Index interaction matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.interaction_matrix[i, i] = 0
+                for j in range(i + 1, self.nof_features):
+                    self.eval_pairwise(i, j)
+            self.fitted_interaction_matrix = True
+            logging.info("H-Index interaction matrix: Fitting done")
+
+        if one_vs_all:
+            logging.info("\nH-Index one-vs-all matrix: Start fitting")
+            for i in range(self.nof_features):
+                print("Feature: ", i)
+                self.eval_one_vs_all(i)
+            self.fitted_one_vs_all_matrix = True
+            logging.info("H-Index one-vs-all matrix: Fitting done")
+
+    def plot(self, interaction_matrix=True, one_vs_all=True):
+        # if not fitted, fit
+        if not self.fitted_interaction_matrix and interaction_matrix:
+            self.fit(pairwise_matrix=True, one_vs_all=False)
+        if not self.fitted_one_vs_all_matrix and one_vs_all:
+            self.fit(pairwise_matrix=False, one_vs_all=True)
+
+        # plot
+        if interaction_matrix:
+            self._plot_interaction_matrix()
+        if one_vs_all:
+            self._plot_one_vs_all_matrix()
+
+    def eval_pairwise(self, feat_1, feat_2):
+        """Evaluate the interaction between feature 1 and feature 2
+
+        Args
+        ---
+            feat_1 (int): The index of feature 1
+            feat_2 (int): The index of feature 2
+
+        Returns
+        ---
+            float: The interaction between feature 1 and feature 2
+        """
+        if self.interaction_matrix[feat_1, feat_2] != self.empty_symbol:
+            return self.interaction_matrix[feat_1, feat_2]
+
+        x1 = self.data[:, feat_1]
+        x2 = self.data[:, feat_2]
+        pdp_1 = self._pdp_1d(feat_1, x1)
+        pdp_2 = self._pdp_1d(feat_2, x2)
+        pdp_12 = self._pdp_2d(feat_1, feat_2, x1, x2)
+
+        nom = np.mean(np.square(pdp_12 - pdp_1 - pdp_2))
+        denom = np.mean(np.square(pdp_12))
+        interaction = nom / denom
+
+        self.interaction_matrix[feat_1, feat_2] = interaction
+        self.interaction_matrix[feat_2, feat_1] = interaction
+        return interaction
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        pdp_1 = self._pdp_1d(feat, self.data[:, feat])
+        pdp_minus_1 = self._pdp_minus_1d(feat, self.data[:, [i for i in range(self.nof_features) if i != feat]])
+
+        yy = self.model(self.data)
+        yy = yy - np.mean(yy)
+        nom = np.mean(np.square(yy - pdp_minus_1 - pdp_1))
+        denom = np.mean(np.square(yy))
+        interaction = nom / denom
+
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def _pdp_1d(self, feature, x):
+        # eval normalized pdp for feature at x
+        yy = pdp_1d_vectorized(self.model, self.data, x, feature, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_2d(self, feature1, feature2, x1, x2):
+        features = [feature1, feature2]
+        x = np.stack([x1, x2], axis=-1)
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _pdp_minus_1d(self, feature, x):
+        # features are all other features
+        features = [i for i in range(self.nof_features) if i != feature]
+        assert len(features) == x.shape[1]
+
+        yy = pdp_nd_vectorized(self.model, self.data, x, features, heterogeneity=False, model_returns_jac=False)
+        c = np.mean(yy)
+        return yy - c
+
+    def _plot_interaction_matrix(self):
+        import matplotlib.pyplot as plt
+        plt.figure(figsize=(10, 10))
+        plt.title("Interaction Matrix")
+        # assign the mean to the diagonal values w
+        matrix = np.copy(self.interaction_matrix)
+        mu = np.mean(matrix)
+        for i in range(self.nof_features):
+            matrix[i, i] = mu
+
+        # plot as a heatmap
+        plt.imshow(matrix)
+        plt.colorbar()
+        # show grid values
+        for i in range(self.nof_features):
+            for j in range(self.nof_features):
+                plt.text(j, i, round(matrix[i, j], 2), ha="center", va="center", color="w")
+
+        plt.xticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.show()
+
+    def _plot_one_vs_all_matrix(self):
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("H-index for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("H-index")
+        plt.show()
+
+
+class REPID:
+    """REPID definition of interaction between feature x_j and all the others, i.e. the variance of the dPDP plot
+    """
+    empty_symbol = 1e10
+
+    def __init__(self, data, model, model_jac, nof_instances):
+        self.nof_instances, self.indices = helpers.prep_nof_instances(nof_instances, data.shape[0])
+        self.data = data[self.indices]
+        self.dim = self.data.shape[1]
+
+        self.model = model
+        self.model_jac = model_jac
+        self.nof_instances = nof_instances
+        self.nof_features = data.shape[1]
+
+        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol
+        self.one_vs_all_matrix = np.ones(self.nof_features) * self.empty_symbol
+
+        self.fitted_interaction_matrix = False
+        self.fitted_one_vs_all_matrix = False
+
+    def fit(self, features: typing.Union[int, str, list] = "all",):
+        features = helpers.prep_features(features, self.dim)
+        for i, feat in enumerate(features):
+            print("Feature: ", feat)
+            self.eval_one_vs_all(feat)
+        self.fitted_one_vs_all_matrix = bool(np.all(self.one_vs_all_matrix != self.empty_symbol))
+
+    def eval_one_vs_all(self, feat):
+        if self.one_vs_all_matrix[feat] != self.empty_symbol:
+            return self.one_vs_all_matrix[feat]
+
+        axis_limits = effector.helpers.axis_limits_from_data(self.data)
+        pdp = PDP(self.data, self.model, axis_limits, nof_instances="all")
+        pdp.fit(feat)
+
+        # find the interaction index
+        start = axis_limits[:, feat][0]
+        stop = axis_limits[:, feat][1]
+        x = np.linspace(start, stop, 21)
+        x = 0.5 * (x[:-1] + x[1:])
+        mu, std = pdp.eval(feature=feat, xs=x, heterogeneity=True, centering="zero_start") # "zero_integral")
+        interaction = np.mean(std)
+
+        # store the interaction index
+        self.one_vs_all_matrix[feat] = interaction
+        return interaction
+
+    def plot(self):
+        if self.fitted_one_vs_all_matrix is False:
+            self.fit()
+
+        import matplotlib.pyplot as plt
+        # plot as horizontal bar chart
+        plt.figure(figsize=(10, 10))
+        plt.title("REPID for all features")
+        plt.barh(np.arange(self.nof_features), self.one_vs_all_matrix)
+        plt.yticks(np.arange(self.nof_features), labels=["feature {}".format(i+1) for i in range(self.nof_features)])
+        plt.xlabel("REPID index")
+        plt.show()
-- 
2.43.0


From 4a73b732579c642956a9110953bdcf13cc4212b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 36/38] fix: points_for_centering="all" is documented for PDP,
 d-PDP and SHAP-DP but crashed in np.linspace

---
 effector/global_effect_pdp.py  | 2 ++
 effector/global_effect_shap.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/effector/global_effect_pdp.py b/effector/global_effect_pdp.py
index c4fc70a..218db1f 100644
--- a/effector/global_effect_pdp.py
+++ b/effector/global_effect_pdp.py
@@ -58,6 +58,8 @@ class PDPBase(GlobalEffectBase):
         data = helpers.drop_points_outside_axis_limits(self.data, self.axis_limits, feature)
 
         if centering is True or centering == "zero_integral":
+            if points_for_centering == "all":
+                points_for_centering = data.shape[0]
             xx = np.linspace(
                 self.axis_limits[0, feature],
                 self.axis_limits[1, feature],
diff --git a/effector/global_effect_shap.py b/effector/global_effect_shap.py
index d0bed33..9a0d11e 100644
--- a/effector/global_effect_shap.py
+++ b/effector/global_effect_shap.py
@@ -127,6 +127,8 @@ class ShapDP(GlobalEffectBase):
         # compute norm constant
         if centering == "zero_integral":
             start, stop = self.axis_limits[0, feature], self.axis_limits[1, feature]
+            if points_for_centering == "all":
+                points_for_centering = data.shape[0]
             x_norm = np.linspace(start, stop, points_for_centering)
             y_norm = spline_mean(x_norm)
             norm_const = np.trapz(y_norm, x_norm) / (stop - start)
-- 
2.43.0


From d8d6f4aa71ce4120626d627ff153e20db0ed362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 37/38] fix: ALE and RHALE crash for features with values above
 1.3e8 and extrapolate beyond the last bin above 1e8

---
 effector/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/effector/utils.py b/effector/utils.py
index 26f7ded..c8ae8d3 100644
--- a/effector/utils.py
+++ b/effector/utils.py
@@ -51,7 +51,7 @@ def compute_local_effects(
 
     # for each point, find the bin-index it belongs to
     limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
+    limits_enh[-1] = np.inf
     ind = np.digitize(data[:, feature], limits_enh)
     assert np.alltrue(ind > 0)
 
@@ -142,7 +142,7 @@ def compute_bin_effect(
 
     # find bin-index of points
     limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += EPS
+    limits_enh[-1] = np.inf
     ind = np.digitize(xs, limits_enh)
     # assert np.alltrue(ind > 0)
 
@@ -213,9 +213,8 @@ def compute_bin_variance(
     empty_symbol = np.NaN
 
     # find bin-index of points
-    eps = 1e-8
     limits_enh = copy.deepcopy(limits).astype(float)
-    limits_enh[-1] += eps
+    limits_enh[-1] = np.inf
     ind = np.digitize(xs, limits_enh)
     # assert np.alltrue(ind > 0)
 
@@ -353,7 +352,7 @@ def compute_accumulated_effect(
     full_bin_effect = tmp[ind]
 
     # for each point, find the remaining effect
-    tmp = np.concatenate([[limits[0]], limits[:-1], [BIG_M]])
+    tmp = np.concatenate([[limits[0]], limits[:-1], [np.inf]])
     deltas = x - tmp[ind]
     deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0
     deltas = deltas**2 if square else deltas
-- 
2.43.0


From 8353cdbf3c1630ab034729561972c8a6a0e1c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:05 +0000
Subject: [PATCH 38/38] fix: regional fit crashes when a categorical feature
 has more values than cat_limit and nof_candidate_splits_for_numerical

---
 effector/partitioning.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/effector/partitioning.py b/effector/partitioning.py
index fcc5cdf..1338e86 100644
--- a/effector/partitioning.py
+++ b/effector/partitioning.py
@@ -149,20 +149,11 @@ class Regions:
         foc = self.foc
         nof_splits = self.nof_candidate_splits_for_numerical
         heter_func = self.heter_func
-        cat_limit = self.cat_limit
 
         data = self.data
 
         big_M = -BIG_M
 
-        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity drop if I split foc[i] at index j
-        weighted_heter_drop = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
-        # weighted_heter[i,j] (i index of foc and j index of split position) is
-        # the accumulated heterogeneity if I split foc[i] at index j
-        weighted_heter = np.ones([len(foc), max(nof_splits, cat_limit)]) * big_M
-
         # list with len(foc) elements
         # each element is a list with the split positions for the corresponding feature of conditioning
         candidate_split_positions = [
@@ -171,6 +162,15 @@ class Regions:
             else self.find_positions_cont(data, foc_i, nof_splits)
             for i, foc_i in enumerate(foc)
         ]
+        max_positions = max([len(positions) for positions in candidate_split_positions])
+
+        # weighted_heter_drop[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity drop if I split foc[i] at index j
+        weighted_heter_drop = np.ones([len(foc), max_positions]) * big_M
+
+        # weighted_heter[i,j] (i index of foc and j index of split position) is
+        # the accumulated heterogeneity if I split foc[i] at index j
+        weighted_heter = np.ones([len(foc), max_positions]) * big_M
 
         # exhaustive search on all split positions
         for i, foc_i in enumerate(foc):
-- 
2.43.0

