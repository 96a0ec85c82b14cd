From 41a9233e3cfd65a767dd9464efa8fa84fa86740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 01/30] fix: embargo exactly the samples after each test block

embargo() selected the test samples of the block positionally, so that later
test folds could extend an earlier block's embargo, and it skipped the embargo
altogether when it reached the end of the data.
---
 mizarlabs/model/model_selection.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 021e20b..66c66e0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -286,16 +286,16 @@ def embargo(
             "The passed cross-validation object should have a "
             "member cv.embargo_td defining the embargo time."
         )
-    last_test_eval_time = cv.eval_times.iloc[test_indices[:test_fold_end]].max()
+    last_test_eval_time = cv.eval_times.iloc[
+        test_indices[test_indices < test_fold_end]
+    ].max()
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-    if min_train_index < cv.indices.shape[0]:
-        allowed_indices = np.concatenate(
-            (cv.indices[:test_fold_end], cv.indices[min_train_index:])
-        )
-        train_indices = np.intersect1d(train_indices, allowed_indices)
-    return train_indices
+    allowed_indices = np.concatenate(
+        (cv.indices[:test_fold_end], cv.indices[min_train_index:])
+    )
+    return np.intersect1d(train_indices, allowed_indices)
 
 
 def purge(
-- 
2.43.0


From 965a445facf41737075189c2627819fbeca00eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 02/30] fix: honour a custom side column name in triple barrier
 labeling

The barrier and label functions read the side column under its default name,
so any other side_column_name raised (or, if a default-named column existed
as well, mixed the two).
---
 mizarlabs/transformers/targets/labeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 147878a..2abb148 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -167,10 +167,10 @@ class TripleBarrierMethodLabeling(BaseLabeling):
             else 1
         )
 
-        if SIDE not in y.columns:
-            barriers_info_df[self.side_column_name] = 1
+        if self.side_column_name not in y.columns:
+            barriers_info_df[SIDE] = 1
         else:
-            barriers_info_df[self.side_column_name] = y[self.side_column_name]
+            barriers_info_df[SIDE] = y[self.side_column_name]
 
         barriers_df = triple_barrier_labeling(
             close=y[self.close_column_name],
-- 
2.43.0


From 5375756981f2edb9bd69f509804e62255f0aa10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 03/30] fix: do not read uninitialised t-values in trend
 scanning

With step > 1 only every step-th entry of the t-value buffer is written, but
the maximum was searched over all of them.
---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index b7ede78..868e640 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -231,7 +231,7 @@ def _get_t_val_and_event_end_time_index_at_index(
     """
 
     # init array to stores t values in
-    t_values_array = np.empty(y_subset.shape[0] - min_sample_length)
+    t_values_array = np.zeros(y_subset.shape[0] - min_sample_length)
 
     # expand forward looking window, compute and store t value, keeping into account
     # the min_sample_length and the stepsize
-- 
2.43.0


From 87d49f4a30be48bea0c08d5ae0f019a125b413f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 04/30] fix: trend scanning does not keep the first series'
 events

transform() stored the index of the first series it saw as t_events, so that
a second call on another series failed or scanned the wrong bars.
---
 mizarlabs/transformers/targets/trend_scanning.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 868e640..9092008 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -77,9 +77,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         assert set(required_columns) == set(
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
-        assert set(self.t_events) == set(
-            output_df.index.values
-        ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+        if self.t_events is not None:
+            assert set(self.t_events) == set(
+                output_df.index.values
+            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -117,13 +118,12 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        if self.t_events is None:
-            self.t_events = y.index.values
+        t_events = y.index.values if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
             y_array=y.values.astype(np.float64),
-            indices=y.index.get_indexer(self.t_events),
+            indices=y.index.get_indexer(t_events),
             min_sample_length=self.min_sample_length,
             look_forward_window=self.look_forward_window,
             step=self.step,
@@ -137,7 +137,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         # cast results into dataframe and compute the returns and the sign of the return
         labels = pd.DataFrame(
             {EVENT_END_TIME: event_end_times_array, T_VALUE: t_values_array},
-            index=self.t_events,
+            index=t_events,
         )
         non_nan_labels = labels[EVENT_END_TIME].dropna()
         labels.loc[non_nan_labels.index, RETURN] = (
-- 
2.43.0


From a05e109153bcd6a71f504f82f2539257aff19746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 05/30] fix: accept trend scanning events given as pandas
 timestamps

The documented list or array of timestamps was compared with the index's raw
datetime64 values, which never equal a pd.Timestamp.
---
 mizarlabs/transformers/targets/trend_scanning.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 9092008..705c098 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -65,10 +65,11 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             input_series, pd.Series
         ), "Please provide only a Pandas series with close prices with datetime indices."
         if self.t_events is not None:
-            assert set(input_series.index.values).issuperset(set(self.t_events)), (
+            missing_events = set(pd.Index(self.t_events)) - set(input_series.index)
+            assert not missing_events, (
                 f"The following time indices are in t_events but "
                 f"not in the provided series "
-                f"{set(input_series.index.values) - set(self.t_events)}"
+                f"{missing_events}"
             )
 
     def _check_output(self, output_df: pd.DataFrame):
@@ -78,9 +79,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
         if self.t_events is not None:
-            assert set(self.t_events) == set(
-                output_df.index.values
-            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+            missing_events = set(pd.Index(self.t_events)) - set(output_df.index)
+            assert (
+                not missing_events
+            ), f"Missing following time indices in output DataFrame: {missing_events}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
-- 
2.43.0


From e7d6f0d2b3df8ddf58e12447b402ee1b85746618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 06/30] fix: accept indicator matrices without zeros (labels
 that span every bar)

---
 mizarlabs/model/bootstrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/bootstrapping.py b/mizarlabs/model/bootstrapping.py
index 593a663..75638ea 100644
--- a/mizarlabs/model/bootstrapping.py
+++ b/mizarlabs/model/bootstrapping.py
@@ -70,7 +70,7 @@ def get_ind_matrix(
 
     ind_mat_csc = ind_mat.tocsc()
     assert np.max(ind_mat_csc) == 1
-    assert np.min(ind_mat_csc) == 0
+    assert np.min(ind_mat_csc) in (0, 1)
 
     if return_indices:
         return ind_mat, bar_index
-- 
2.43.0


From 4f04b3ec08500bdb078131c6de36ef508dcdb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 07/30] fix: honour a custom bet size column name when
 averaging active bets

---
 mizarlabs/transformers/trading/bet_sizing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 415aa85..387d026 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -123,7 +123,9 @@ class BetSizingFromProbabilities(BetSizingBase):
             bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
 
         if self._average_active:
-            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(BET_SIZE).join(
+            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
+                self._bet_size_column_name
+            ).join(
                 X[[self._event_end_time_column_name]], how="left"
             )
 
-- 
2.43.0


From c221743b96604f3471686173eef6a19ff22ce072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 08/30] fix: size bets that open at the same time independently

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 387d026..abfd486 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -120,13 +120,13 @@ class BetSizingFromProbabilities(BetSizingBase):
             ), "The side should be 1, -1 or 0"
 
             check_missing_columns(X, [self._side_column_name])
-            bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
+            bet_sizing_signal *= X[self._side_column_name]
 
         if self._average_active:
             bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
                 self._bet_size_column_name
-            ).join(
-                X[[self._event_end_time_column_name]], how="left"
+            ).assign(
+                **{self._event_end_time_column_name: X[self._event_end_time_column_name]}
             )
 
             bet_sizing_signal = avg_active_signals(
-- 
2.43.0


From 4b2b159551a2d9c88a2ad69a600e64409d1b9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 09/30] fix: close bets that end before 1970 when averaging
 active bets

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index abfd486..2a76324 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -15,6 +15,10 @@ BET_SIZE = "bet_size"
 PROBABILITY = "prob"
 PREDICTION = "pred"
 SIDE = "side"
+# What convert_to_timestamp makes of a missing time
+MISSING_TIMESTAMP = int(
+    convert_to_timestamp(np.array(["NaT"], dtype="datetime64[ns]"))[0]
+)
 
 
 class BetSizingBase(BaseEstimator, TransformerMixin):
@@ -218,7 +222,7 @@ def _get_avg_active_signals(
             signal_timestamp_index, active_bet_size_time
         ) * np.logical_or(
             np.less(active_bet_size_time, expiration_barrier_timestamp),
-            np.less(expiration_barrier_timestamp, 0),
+            np.equal(expiration_barrier_timestamp, MISSING_TIMESTAMP),
         )
         # select the active bet sizes signals and calculates the mean
         active_bets_timestamps = signal_timestamp_index[mask]
-- 
2.43.0


From b66da10591355d31afa7bb583a764d2580df25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 10/30] fix: metalabeling on primary predictions alone with
 rows lacking primary features

---
 mizarlabs/model/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 9fb5ed3..55fb691 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -402,9 +402,14 @@ class StrategySignalPipeline:
         X_metalabel_aligned.dropna(inplace=True)
         # add primary model predict values for metalabel model as features
         if self.metalabeling_use_predictions_primary_model:
-            X_metalabel_aligned["primary_side_pred"] = pd.Series(
+            X_primary_pred_feature = pd.Series(
                 self.primary_model.predict(X_primary_aligned),
                 index=X_primary_aligned.index,
+                name="primary_side_pred",
+            )
+            # inner join for the same reason as for the probabilities below
+            X_metalabel_aligned = pd.concat(
+                [X_metalabel_aligned, X_primary_pred_feature], axis=1, join="inner"
             )
         # add primary model predict proba values for metalabel model as features
         if self.metalabeling_use_proba_primary_model:
-- 
2.43.0


From 4670f007c8c2e40842cd0bee34ee53eec52c94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 11/30] fix: ask the configured closing positions model

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 55fb691..524ba62 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -686,7 +686,7 @@ class StrategySignalPipeline:
 
     def determine_positions_to_close(self, X_dict: Dict[str, pd.DataFrame]):
         positions_to_close = None
-        if hasattr(self, "closing_position_model") and self.closing_positions_model:
+        if hasattr(self, "closing_positions_model") and self.closing_positions_model:
             positions_to_close = self.closing_positions_model.close_positions(X_dict)
 
         if positions_to_close not in ("all", "long", "short", None):
-- 
2.43.0


From e25b285f1a4c7ee5a5ab4d82c092a4cb91b21269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 12/30] fix: do not add the strategy columns to the caller's
 bars

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 524ba62..8b2f24f 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -802,7 +802,7 @@ class StrategyTrader:
 
         # target dataframe is extracted so that the volatility can be
         # calculated
-        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_]
+        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_].copy()
 
         volatility_adjusted_stop_loss = (
             self.volatility_adjusted_stop_loss
-- 
2.43.0


From 3a4777e4ad74dcb1a8ba6c684d52aeb2b62f108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 13/30] fix: build as many backtest paths as the groups allow

---
 mizarlabs/model/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 66c66e0..81461ad 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -434,7 +434,7 @@ def combinatorial_cross_validation_paths(
 
             bound_pred_dict[test_bound[0]].append(tmp_df)
 
-    n_paths = compute_back_test_paths(cv.n_splits, cv.n_test_splits)
+    n_paths = compute_back_test_paths(cv.n_groups, cv.n_test_splits)
     paths = []
 
     # from the sub test computed create paths randomly picking one sub test
-- 
2.43.0


From 1a0835ff7796602d70e1ec5af80ffafecc838eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 14/30] fix: no missing VPIN for a first full window without
 volume

---
 mizarlabs/transformers/microstructural_features/vpin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 2abf729..89ad674 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,10 +73,10 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
+        vpin_feature.iloc[self.window - 1 :] = vpin_feature[self.window - 1 :].fillna(0)
 
         assert (
-            ~vpin_feature[self.window :].isna().any()
+            ~vpin_feature[self.window - 1 :].isna().any()
         ), "No NaNs are allowed after the warm-up period of the rolling window"
 
         return vpin_feature.values.reshape(-1, 1)
-- 
2.43.0


From 9421dba6f80456acccd6fc70c143f5837dd96084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 15/30] fix: penalise the sample length in sub- and
 super-martingale tests

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index d4d965b..b95b9aa 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -124,7 +124,7 @@ def _get_sadf_at_t(
         if model[:2] == "sm":
             t = y.shape[0]
             t0 = start + 1  # t0 index starts from 1 to t - tau (page 260)
-            current_adf = np.abs(current_adf) / ((y.shape[0] - (t - t0)) ** phi)
+            current_adf = np.abs(current_adf) / ((t - t0) ** phi)
 
         adf_array[start] = current_adf
 
-- 
2.43.0


From 61e0427e42f371fb3f0bd06ccaf07cb48179d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 16/30] fix: accept a list of lags in SADF

---
 mizarlabs/structural_breaks/sadf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index b95b9aa..774ea6c 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,8 +50,9 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
+        max_lag = lags if isinstance(lags, int) else max(lags)
         assert (
-            min_length > lags
+            min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
         self.model = model
         self.lags = lags
-- 
2.43.0


From a0c69a7e65e80423aa8b73a3d5e9642dda6eff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 17/30] fix: SADF without lagged differences

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 774ea6c..2fe3979 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -254,7 +254,7 @@ def _lag_df(df: pd.DataFrame, lags: Union[int, list]) -> pd.DataFrame:
     :return: dataframe with features and lagged differenced y features
     :rtype: pd.DataFrame
     """
-    df_lagged = pd.DataFrame()
+    df_lagged = pd.DataFrame(index=df.index)
     if isinstance(lags, int):
         lags = range(1, lags + 1)
     else:
-- 
2.43.0


From d537dc6e72cb12f68f3b3f700a3ead48a03e51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 18/30] fix: accept a fraction of the features in bagging

---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 01f08e7..2b20f66 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -375,7 +375,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         # Validate max_features
         if isinstance(self.max_features, (numbers.Integral, np.integer)):
             max_features = self.max_features
-        elif isinstance(self.max_features, np.float):
+        elif isinstance(self.max_features, float):
             max_features = self.max_features * self.n_features_
         else:
             raise ValueError("max_features must be int or float")
-- 
2.43.0


From 9ab0d92ea805739b5b5b4060842f5fc91163407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 19/30] fix: let a fitted bagging classifier predict

---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 2b20f66..0d8b01f 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -356,6 +356,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
 
         # Remap output
         n_samples, self.n_features_ = X.shape
+        self.n_features_in_ = self.n_features_
         self._n_samples = n_samples
         y = self._validate_y(y)
 
-- 
2.43.0


From 9e250567db2ce647562b3e3a0bf6dc4fbed41f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 20/30] fix: report the samples drawn by sequential
 bootstrapping

---
 .../model/sequentially_bootstrapped_bagging_classifier.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 0d8b01f..8ee0651 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -265,6 +265,11 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
             )
         return self._ind_mat
 
+    @property
+    def estimators_samples_(self):
+        """The subset of drawn samples (i.e., the in-bag samples) for each base estimator."""
+        return self.sequentially_bootstrapped_samples_
+
     def fit(
         self,
         X: pd.DataFrame,
-- 
2.43.0


From 6e9056839f2c4d19e7d365bcb17913f8239c31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 21/30] fix: out-of-bag votes of members that have not seen
 every class

---
 .../model/sequentially_bootstrapped_bagging_classifier.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 8ee0651..22e9925 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -608,7 +608,8 @@ class SequentiallyBootstrappedBaggingClassifier(
             mask = ~indices_to_mask(samples, n_samples)
 
             if hasattr(estimator, "predict_proba"):
-                predictions[mask, :] += estimator.predict_proba(
+                # A member may not have seen every class
+                predictions[np.ix_(mask, estimator.classes_)] += estimator.predict_proba(
                     (X[mask, :])[:, features]
                 )
 
-- 
2.43.0


From 766e96062a149e7cdd5c606ac8d9ec5af24376ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 22/30] fix: out-of-bag estimates when a member has seen every
 row

---
 .../model/sequentially_bootstrapped_bagging_classifier.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 22e9925..b15fb64 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -607,6 +607,9 @@ class SequentiallyBootstrappedBaggingClassifier(
             # Create mask for OOB samples
             mask = ~indices_to_mask(samples, n_samples)
 
+            if not mask.any():
+                continue
+
             if hasattr(estimator, "predict_proba"):
                 # A member may not have seen every class
                 predictions[np.ix_(mask, estimator.classes_)] += estimator.predict_proba(
-- 
2.43.0


From 616a78ca11d465218b5e4fc42c341831ce9e56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 23/30] fix: read indicator signatures printed by newer TA-lib
 versions

---
 mizarlabs/transformers/technical/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 6082354..7389882 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -52,7 +52,8 @@ class TAFactory:
         :rtype: Tuple[List[str]]
         """
         ta_func = self.get_ta_func(func_name)
-        signature = re.search(r"\((.+)\)", ta_func.__doc__).group(1)
+        # newer TA-lib versions print the types in a first line, above the signature
+        signature = re.findall(r"^\w+\((.+)\)$", ta_func.__doc__, re.MULTILINE)[-1]
 
         args_kwargs_names = signature.split("[, ")
         if len(args_kwargs_names) == 1:
-- 
2.43.0


From 0ed3ef29f118fd737586ccc1ddb3e847b0db9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 24/30] fix: hand the target to the transformers of a feature
 union

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 8b2f24f..c0a9bd0 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -27,7 +27,7 @@ from mizarlabs.transformers.utils import check_missing_columns
 
 class MizarFeatureUnion(FeatureUnion):
     def fit_transform(self, X, y=None, **fit_params):
-        Xs = super().fit_transform(X, y=None, **fit_params)
+        Xs = super().fit_transform(X, y=y, **fit_params)
 
         return pd.DataFrame(Xs, index=X.index)
 
-- 
2.43.0


From 508b22ea55f72d52fb76fa7673e41af8887bc626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 25/30] fix: scan every bar of a timezone-aware series

---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 705c098..7a43bb8 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -120,7 +120,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        t_events = y.index.values if self.t_events is None else self.t_events
+        t_events = y.index if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
-- 
2.43.0


From 4217431395d8161f377cb580a80621f75066ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 26/30] fix: give averaged bet sizes in the timezone of the
 bets

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 2a76324..440b3f9 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -185,6 +185,12 @@ def avg_active_signals(
     avg_active_bet_size = pd.Series(
         avg_active_bet_size_list, index=active_bet_size_time_indices, dtype=float
     )
+    # the times above are in UTC, give them back in the timezone they came in
+    timezone = getattr(signals.index, "tz", None)
+    if timezone is not None:
+        avg_active_bet_size = avg_active_bet_size.tz_localize("UTC").tz_convert(
+            timezone
+        )
 
     return avg_active_bet_size
 
-- 
2.43.0


From 85f22789b73b774b931b9e543e22080f9bded682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 27/30] fix: VPIN of a history shorter than its window

---
 mizarlabs/transformers/microstructural_features/vpin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 89ad674..5dce6bf 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,10 +73,11 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window - 1 :] = vpin_feature[self.window - 1 :].fillna(0)
+        warm_up = min(self.window - 1, len(vpin_feature))
+        vpin_feature.iloc[warm_up:] = vpin_feature[warm_up:].fillna(0)
 
         assert (
-            ~vpin_feature[self.window - 1 :].isna().any()
+            ~vpin_feature[warm_up:].isna().any()
         ), "No NaNs are allowed after the warm-up period of the rolling window"
 
         return vpin_feature.values.reshape(-1, 1)
-- 
2.43.0


From 109957810a828e452dc65382f345cf2025f08446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 28/30] fix: Chow-type Dickey-Fuller statistics keep the
 timezone of the series

---
 mizarlabs/structural_breaks/sdfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sdfc.py b/mizarlabs/structural_breaks/sdfc.py
index 115936f..a95bc87 100644
--- a/mizarlabs/structural_breaks/sdfc.py
+++ b/mizarlabs/structural_breaks/sdfc.py
@@ -87,7 +87,7 @@ class SupremumDickeyFullerChowStatTest:
         )
         return pd.Series(
             dfc_array,
-            index=series_to_test.index.values[
+            index=series_to_test.index[
                 self.min_num_samples : series_to_test.shape[0] - self.min_num_samples
             ],
         )
-- 
2.43.0


From 31f43ff19d425a90f258d69205701d56660d351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 29/30] fix: triple-barrier labels of bars in a timezone

---
 mizarlabs/transformers/targets/labeling.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 2abb148..a9fd17d 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -53,7 +53,16 @@ class BaseLabeling(BaseEstimator, TransformerMixin):
         :return:
         """
         self._check_input(y)
-        output = self._transform(y)
+        timezone = getattr(y.index, "tz", None)
+        if timezone is None:
+            output = self._transform(y)
+        else:
+            # the barriers are found in UTC, give the times in the timezone they came in
+            output = self._transform(y.tz_convert(None))
+            output = output.tz_localize("UTC").tz_convert(timezone)
+            output[EVENT_END_TIME] = (
+                output[EVENT_END_TIME].dt.tz_localize("UTC").dt.tz_convert(timezone)
+            )
         self._check_output(output)
         return output
 
-- 
2.43.0


From af3eaadd8d604926cdbec4d5fa2019c71689a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 30/30] fix: meta-labels of a history in which no event ends

---
 mizarlabs/transformers/targets/labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index a9fd17d..51803e0 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -424,6 +424,7 @@ def get_labels(
         # correct. When the base model does not take a position or the returns
         #  are 0 then the metalabel will be na
         output_df[RETURN] *= events_without_na[SIDE]
+        output_df[LABEL] = np.nan
         output_df.loc[output_df[RETURN] > 0, LABEL] = 1
         output_df.loc[output_df[RETURN] < 0, LABEL] = 0
         output_df.loc[output_df[RETURN] == 0, LABEL] = np.nan
-- 
2.43.0

