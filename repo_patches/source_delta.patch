From 0bf757c0405d40a3b74e37732e481eac6f3f0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 01/12] fix: use the alpha of the design when analysing a
 metric

---
 feedx/experiment_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index ef6716b..608e8ad 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -484,6 +484,7 @@ def _analyze_regular_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a regular (non-crossover) A/B test.
 
@@ -504,6 +505,7 @@ def _analyze_regular_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the statistical test.
 
   Returns:
     The statistical test results.
@@ -530,6 +532,7 @@ def _analyze_regular_experiment_single_metric(
       denom_values2=denominator_y_control,
       equal_var=False,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -582,6 +585,7 @@ def _analyze_crossover_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a crossover A/B test.
 
@@ -607,6 +611,7 @@ def _analyze_crossover_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the statistical test.
 
   Returns:
     The statistical test results.
@@ -636,6 +641,7 @@ def _analyze_crossover_experiment_single_metric(
       denom_values1=denominator_y_treatment_demeaned,
       denom_values2=denominator_y_control_demeaned,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -738,6 +744,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
   else:
     return _analyze_regular_experiment_single_metric(
@@ -745,6 +752,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
 
 
-- 
2.43.0


From ad5bae30cb87d3e2a19e2744f836c197ba371458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 02/12] fix: honour the column name arguments in
 plot_metric_over_time

---
 feedx/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 7ef9d08..b0c7bec 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -434,8 +434,10 @@ def plot_metric_over_time(
       nrows=2, figsize=(10, 6), sharex=True, constrained_layout=True
   )
 
-  is_test_or_test_1 = data["time_period"].isin(["test", "test_1", "washout_1"])
-  start_date = data.loc[is_test_or_test_1, "date"].min()
+  is_test_or_test_1 = data[time_period_column].isin(
+      ["test", "test_1", "washout_1"]
+  )
+  start_date = data.loc[is_test_or_test_1, date_column].min()
   pretest_start_date = start_date - dt.timedelta(weeks=design.pretest_weeks)
   end_date = start_date + dt.timedelta(weeks=design.runtime_weeks)
 
-- 
2.43.0


From 515e8bc9746c1e6aa2e78a56c218b40662f73dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 03/12] fix: write designs containing numpy scalars as loadable
 yaml

---
 feedx/experiment_design.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/feedx/experiment_design.py b/feedx/experiment_design.py
index 3fc0266..c979421 100644
--- a/feedx/experiment_design.py
+++ b/feedx/experiment_design.py
@@ -201,7 +201,12 @@ class ExperimentDesign:
     Args:
       file_path: The path to write to.
     """
-    raw_values = dataclasses.asdict(self)
+    # Numpy scalars must be converted to builtin types, otherwise the yaml file
+    # would contain python objects which load_from_yaml() cannot safely load.
+    raw_values = {
+        name: value.item() if isinstance(value, np.generic) else value
+        for name, value in dataclasses.asdict(self).items()
+    }
     with open(file_path, "w") as file:
       yaml.dump(raw_values, file)
 
-- 
2.43.0


From 6877e1a2304d8941586070adc54c59cc428c5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 04/12] fix: reject data where dates have the same number of
 different items

---
 feedx/data_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 4e95fee..7ba923a 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -751,7 +751,8 @@ def _validate_every_item_exists_exactly_once_for_every_date(
     return failed, message
 
   value_counts_first_group = value_counts_per_group.values[0]
-  if np.any(value_counts_per_group.values != value_counts_first_group):
+  n_items = data[item_id_column].nunique()
+  if np.any(value_counts_per_group.values != n_items):
     message = (
         f"Some {date_column} are missing {item_id_column}. Below are the number"
         f" of unique {item_id_column} per {date_column}, which should be equal"
-- 
2.43.0


From bf0ed9fa7ae7fdc1f52fa9a701ef6bebff51461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 05/12] fix: do not add the time period to the caller's data
 when pivoting

---
 feedx/experiment_analysis.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 608e8ad..252e650 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -241,7 +241,7 @@ def _pivot_regular_time_assignment(
     combinations of metrics and time_periods.
   """
   data = _add_time_period_column_for_regular_experiment(
-      data,
+      data.copy(deep=False),
       start_week_id=start_week_id,
       pretest_weeks=pretest_weeks,
       runtime_weeks=runtime_weeks,
@@ -267,8 +267,6 @@ def _pivot_regular_time_assignment(
 
   pivoted_data.loc[:, pd.IndexSlice[:, "test"]] /= runtime_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
@@ -321,7 +319,7 @@ def _pivot_crossover_time_assignment(
     combinations of metrics and time_periods.
   """
   data = _add_time_period_column_for_crossover_experiment(
-      data,
+      data.copy(deep=False),
       start_week_id=start_week_id,
       pretest_weeks=pretest_weeks,
       runtime_weeks=runtime_weeks,
@@ -360,8 +358,6 @@ def _pivot_crossover_time_assignment(
         :, pd.IndexSlice[:, "washout_2"]
     ] /= crossover_washout_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
-- 
2.43.0


From e763364344ff4e0ce1e70e4b65802667bdd2327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 06/12] fix: do not adjust for a constant covariate in the
 CUPED adjustment

---
 feedx/statistics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 884b79b..995f4ca 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -300,6 +300,10 @@ def apply_cuped_adjustment(
 
   metric_and_covariate = np.stack([metric, covariate], axis=0)
   covariance_matrix = np.cov(metric_and_covariate)
+  if covariance_matrix[1, 1] == 0.0:
+    # A constant covariate contains no information to adjust for.
+    return metric
+
   theta = (
       covariance_matrix[0, 1] / covariance_matrix[1, 1]
   )
-- 
2.43.0


From f7a73a89e60b3edb54fc8acc7a4f23d6fe71b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 07/12] fix: do not raise when the control mean is exactly 0

---
 feedx/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 995f4ca..c0bb11f 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -1118,7 +1118,8 @@ def yuens_t_test_ind(
   # We only calculate the relative lift for metrics that are positive.
   # If not, it's hard to interpret it.
   if (mean1 >= 0.0) and (mean2 >= 0.0):
-    relative_difference = mean1 / mean2 - 1.0
+    # Using numpy so that a control mean of 0 does not raise.
+    relative_difference = np.divide(mean1, mean2) - 1.0
     relative_difference_lb, relative_difference_ub = (
         relative_difference_confidence_interval(
             mean_1=mean1,
-- 
2.43.0


From cf4b726aa85a3df3382dbc0721c989d987122f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 08/12] fix: plot effects when the infinite bounds exceed the
 finite ones

---
 feedx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index b0c7bec..9174376 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -551,8 +551,8 @@ def _plot_horizontal_error_bar_with_infs(
   )
   value_err_ub[inf_ub] = 0.0
 
-  value_lb_max = np.min(value_lb[~inf_lb])
-  value_ub_max = np.max(value_ub[~inf_ub])
+  value_lb_max = np.min(np.append(value_lb[~inf_lb], value))
+  value_ub_max = np.max(np.append(value_ub[~inf_ub], value))
 
   eb = ax.errorbar(
       y=y_position, x=value, xerr=[value_err_lb, value_err_ub], **kwargs
-- 
2.43.0


From ca1147387a5e34176d386d2e57fd88fa76c92464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 09/12] fix: use the defined random number generator in the
 README example

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 236b49e..c8b94f3 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ historical_data = data_preparation.prepare_and_validate_historical_data(
     date_column="date",
     primary_metric="clicks",
     primary_metric_column="clicks",
-    rng=RNG
+    rng=rng
 )
 
 # Define the experiment design
-- 
2.43.0


From ffe4a0e5d188f465d06ad299844c11bc621ee224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 10/12] fix: keep metric names with underscores when assigning
 treatment

---
 feedx/experiment_simulations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index e124c28..f14afd0 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -288,9 +288,11 @@ def apply_random_treatment_assignment(
   # due to a bug in the current external version of pandas, so this is a
   # workaround.
   data_flat = data.copy()
-  data_flat.columns = [
-      "__".join(col).strip("_") for col in data_flat.columns.values
-  ]
+  original_columns = {
+      item_id_column if col[0] == item_id_column else "__".join(col): col
+      for col in data_flat.columns.values
+  }
+  data_flat.columns = list(original_columns)
 
   items = data_flat[[item_id_column]].drop_duplicates()
   items[treatment_column] = rng.choice(2, size=len(items))
@@ -299,7 +301,7 @@ def apply_random_treatment_assignment(
       [item_id_column, treatment_column]
   )
   data_flat.columns = pd.MultiIndex.from_tuples(
-      [tuple(col.split("__")) for col in data_flat.columns.values]
+      [original_columns[col] for col in data_flat.columns.values]
   )
   return data_flat
 
-- 
2.43.0


From e06130588977d04665835bc3b66abc4bff498d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 11/12] fix: format results without relative differences

---
 feedx/experiment_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 252e650..fa8cc44 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -954,6 +954,12 @@ def format_experiment_analysis_results_dataframe(
 
   # Format the relative effect sizes
   if include_relative_effect:
+    # The relative differences are None if they have not been calculated.
+    display_data = display_data.astype({
+        "relative_difference": float,
+        "relative_difference_lower_bound": float,
+        "relative_difference_upper_bound": float,
+    })
     display_data[("Relative Effect Size", "Point Estimate")] = display_data[
         "relative_difference"
     ].apply(f"{{:+.{relative_effect_decimal_places}%}}".format)
-- 
2.43.0


From 21fa6e974321b184d7177bf709534e6fa0033c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 12/12] fix: plot effects without relative differences

---
 feedx/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 9174376..acb8323 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -534,9 +534,9 @@ def _plot_horizontal_error_bar_with_infs(
     return
 
   y_position = np.asarray(y_position)
-  value = np.asarray(value)
-  value_lb = np.asarray(value_lb)
-  value_ub = np.asarray(value_ub)
+  value = np.asarray(value, dtype=float)
+  value_lb = np.asarray(value_lb, dtype=float)
+  value_ub = np.asarray(value_ub, dtype=float)
 
   inf_lb = ~np.isfinite(value_lb)
   inf_ub = ~np.isfinite(value_ub)
-- 
2.43.0

