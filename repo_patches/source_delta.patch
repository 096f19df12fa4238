From 088ea84cfb6c4f92d50a94846ac283a4c0066fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 01/19] fix: Bpref is NaN when a query has no judged
 non-relevant document

---
 src/metrics/bpref.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..d0556f0 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,12 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // Without this guard, the term is NaN when there is no judged non-relevant document.
+                bpref += if n_non_rels_so_far == 0.0 {
+                    1.0
+                } else {
+                    1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels)
+                };
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From 16d3178c8dd402fe1e1f04674ce6eb482759186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 02/19] fix: F1 is NaN when a query has no relevant document

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From f05bff9fd1d7301e369e8793ad3405d9b015031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 03/19] fix: Burges' gain is negative for grades of 2^31 and
 above

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..91c1a35 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powi(rel.min(i32::MAX as u32) as i32) - 1.0,
     }
 }
 
-- 
2.43.0


From bbad3f5f807c2dbfac5f75cb514e9060b0f32ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 04/19] fix: elinor-convert ignores write errors on the last
 buffer

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 16758eb02daeb704bf5d901fc4bc67f7bba46226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 05/19] fix: elinor-convert writes non-finite scores as null,
 which cannot be read back

---
 elinor-cli/src/bin/convert.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index ea005ca..4c1cac3 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -61,6 +61,15 @@ fn main() -> Result<()> {
             let pred_rels = trec::parse_pred_rels_in_trec(lines)?;
             let pred_records = pred_rels.into_records();
             for record in pred_records {
+                // JSON cannot represent NaN or infinities.
+                if !record.score.is_finite() {
+                    return Err(anyhow::anyhow!(
+                        "The score must be finite, but got {} for query_id={}, doc_id={}",
+                        record.score,
+                        record.query_id,
+                        record.doc_id
+                    ));
+                }
                 serde_json::to_writer(&mut writer, &record)?;
                 writer.write_all(b"\n")?;
             }
-- 
2.43.0


From e016f9e3500f84e38d4c94eea5ce2011b07cde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 06/19] fix: t-statistic of constant differences is not
 reported as uncomputable

---
 src/statistical_tests/student_t_test.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index f7ca4ed..c605713 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -207,7 +207,8 @@ impl StudentTTest {
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
     let variance = Statistics::variance(samples);
-    if variance == 0.0 {
+    // The computed variance of equal samples may be non-zero due to rounding errors.
+    if variance == 0.0 || samples.iter().all(|&x| x == samples[0]) {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
-- 
2.43.0


From 7d3844974e236788ea87c47edbdd1a1c6f35f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 07/19] fix: margin of error panics for a NaN significance
 level

---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index c605713..21b09b2 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if !(significance_level > 0.0 && significance_level <= 1.0) {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index d4f5bd1..be1e819 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -578,7 +578,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if !(significance_level > 0.0 && significance_level <= 1.0) {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From e6d2c2a77cff401a2ecbcc56b1b06308d4dfd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 08/19] fix: tuples_from_maps panics when no map is given

---
 src/statistical_tests.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..6f3bfa0 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -83,12 +83,18 @@ where
 /// # Errors
 ///
 /// * [`ElinorError::InvalidArgument`] if maps have different sets of keys.
+/// * [`ElinorError::InvalidArgument`] if no map is given.
 pub fn tuples_from_maps<'a, I, K>(maps: I) -> Result<Vec<Vec<f64>>>
 where
     I: IntoIterator<Item = &'a BTreeMap<K, f64>>,
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Err(ElinorError::InvalidArgument(
+            "The input must have at least one map.".to_string(),
+        ));
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From 80bbdd0a4b86c1192424768c51268c914aa818e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 09/19] fix: ANOVA panics for fewer than two systems or without
 residual variation

---
 src/statistical_tests/tukey_hsd_test.rs         |  2 ++
 .../two_way_anova_without_replication.rs        | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/statistical_tests/tukey_hsd_test.rs b/src/statistical_tests/tukey_hsd_test.rs
index b50d2d9..38b6b88 100644
--- a/src/statistical_tests/tukey_hsd_test.rs
+++ b/src/statistical_tests/tukey_hsd_test.rs
@@ -33,6 +33,8 @@ impl TukeyHsdTest {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
+    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
+    /// * [`ElinorError::Uncomputable`] if the residual variation is zero.
     pub fn from_tupled_samples<I, S>(samples: I, n_systems: usize) -> Result<Self, ElinorError>
     where
         I: IntoIterator<Item = S>,
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index be1e819..332cc2d 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -52,6 +52,8 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
+    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
+    /// * [`ElinorError::Uncomputable`] if the residual variation is zero.
     ///
     /// # Examples
     ///
@@ -87,6 +89,11 @@ impl TwoWayAnovaWithoutReplication {
                 "The input must have at least two records.".to_string(),
             ));
         }
+        if n_systems <= 1 {
+            return Err(ElinorError::InvalidArgument(
+                "The input must have at least two systems.".to_string(),
+            ));
+        }
 
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
@@ -136,6 +143,16 @@ impl TwoWayAnovaWithoutReplication {
             })
             .sum::<f64>();
 
+        // The computed residual variation may be non-zero due to rounding errors.
+        let n_scores_f = n_topics_f * n_systems_f;
+        let max_abs = samples.iter().flatten().fold(0_f64, |m, x| m.max(x.abs()));
+        let rounding_error = n_scores_f * f64::EPSILON * max_abs;
+        if residual_variation <= n_scores_f * rounding_error.powi(2) {
+            return Err(ElinorError::Uncomputable(
+                "The residual variation is zero.".to_string(),
+            ));
+        }
+
         // V_A
         let between_system_freedom = n_systems_f - 1.;
         let between_system_variance = between_system_variation / between_system_freedom;
-- 
2.43.0


From 315caf046b5ca3f3dac948cbd7862a03d94fea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 10/19] fix: randomized Tukey HSD test misses ties that differ
 by rounding errors

---
 src/statistical_tests/randomized_tukey_hsd_test.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests/randomized_tukey_hsd_test.rs b/src/statistical_tests/randomized_tukey_hsd_test.rs
index 7065b73..3b5a700 100644
--- a/src/statistical_tests/randomized_tukey_hsd_test.rs
+++ b/src/statistical_tests/randomized_tukey_hsd_test.rs
@@ -200,6 +200,10 @@ impl RandomizedTukeyHsdTester {
             }
         }
 
+        // Equal differences must be counted even if they differ by rounding errors.
+        let max_abs = samples.iter().flatten().fold(0_f64, |m, x| m.max(x.abs()));
+        let rounding_error = n_samples * f64::EPSILON * max_abs;
+
         let mut counts = vec![vec![0_usize; self.n_systems]; self.n_systems];
         for _ in 0..self.n_iters {
             let mut shuffled_samples = Vec::with_capacity(samples.len());
@@ -216,7 +220,7 @@ impl RandomizedTukeyHsdTester {
             let shuffled_diff = shuffled_means.as_slice().max() - shuffled_means.as_slice().min();
             for i in 0..self.n_systems {
                 for j in (i + 1)..self.n_systems {
-                    if shuffled_diff >= diffs[i][j].abs() {
+                    if shuffled_diff >= diffs[i][j].abs() - rounding_error {
                         counts[i][j] += 1;
                     }
                 }
-- 
2.43.0


From 0716c31482a22090ee5f4f273e1cae41b3c527c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 11/19] fix: elinor-compare merges topic ids that are equal as
 numbers

---
 elinor-cli/src/bin/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..5e75bfa 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,6 +70,8 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Topic ids must be read as they are: "1" and "01" are different ids.
+            .with_dtype_overwrite(Some(vec![DataType::String].into()))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
         dfs.push(df);
-- 
2.43.0


From a4cbb76f7118232e8f33aff52d158ea7c2620c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 12/19] Revert "fix: randomized Tukey HSD test misses ties that
 differ by rounding errors"

This reverts commit 315caf046b5ca3f3dac948cbd7862a03d94fea32.
---
 src/statistical_tests/randomized_tukey_hsd_test.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/statistical_tests/randomized_tukey_hsd_test.rs b/src/statistical_tests/randomized_tukey_hsd_test.rs
index 3b5a700..7065b73 100644
--- a/src/statistical_tests/randomized_tukey_hsd_test.rs
+++ b/src/statistical_tests/randomized_tukey_hsd_test.rs
@@ -200,10 +200,6 @@ impl RandomizedTukeyHsdTester {
             }
         }
 
-        // Equal differences must be counted even if they differ by rounding errors.
-        let max_abs = samples.iter().flatten().fold(0_f64, |m, x| m.max(x.abs()));
-        let rounding_error = n_samples * f64::EPSILON * max_abs;
-
         let mut counts = vec![vec![0_usize; self.n_systems]; self.n_systems];
         for _ in 0..self.n_iters {
             let mut shuffled_samples = Vec::with_capacity(samples.len());
@@ -220,7 +216,7 @@ impl RandomizedTukeyHsdTester {
             let shuffled_diff = shuffled_means.as_slice().max() - shuffled_means.as_slice().min();
             for i in 0..self.n_systems {
                 for j in (i + 1)..self.n_systems {
-                    if shuffled_diff >= diffs[i][j].abs() - rounding_error {
+                    if shuffled_diff >= diffs[i][j].abs() {
                         counts[i][j] += 1;
                     }
                 }
-- 
2.43.0


From cef477d59909b288c7a9831b100fcce28b1956ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 13/19] Revert "fix: ANOVA panics for fewer than two systems or
 without residual variation"

This reverts commit 80bbdd0a4b86c1192424768c51268c914aa818e5.
---
 src/statistical_tests/tukey_hsd_test.rs         |  2 --
 .../two_way_anova_without_replication.rs        | 17 -----------------
 2 files changed, 19 deletions(-)

diff --git a/src/statistical_tests/tukey_hsd_test.rs b/src/statistical_tests/tukey_hsd_test.rs
index 38b6b88..b50d2d9 100644
--- a/src/statistical_tests/tukey_hsd_test.rs
+++ b/src/statistical_tests/tukey_hsd_test.rs
@@ -33,8 +33,6 @@ impl TukeyHsdTest {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
-    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
-    /// * [`ElinorError::Uncomputable`] if the residual variation is zero.
     pub fn from_tupled_samples<I, S>(samples: I, n_systems: usize) -> Result<Self, ElinorError>
     where
         I: IntoIterator<Item = S>,
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 332cc2d..be1e819 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -52,8 +52,6 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// * [`ElinorError::InvalidArgument`] if the length of each record is not equal to the number of systems.
     /// * [`ElinorError::InvalidArgument`] if the input does not have at least two records.
-    /// * [`ElinorError::InvalidArgument`] if the number of systems is less than two.
-    /// * [`ElinorError::Uncomputable`] if the residual variation is zero.
     ///
     /// # Examples
     ///
@@ -89,11 +87,6 @@ impl TwoWayAnovaWithoutReplication {
                 "The input must have at least two records.".to_string(),
             ));
         }
-        if n_systems <= 1 {
-            return Err(ElinorError::InvalidArgument(
-                "The input must have at least two systems.".to_string(),
-            ));
-        }
 
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
@@ -143,16 +136,6 @@ impl TwoWayAnovaWithoutReplication {
             })
             .sum::<f64>();
 
-        // The computed residual variation may be non-zero due to rounding errors.
-        let n_scores_f = n_topics_f * n_systems_f;
-        let max_abs = samples.iter().flatten().fold(0_f64, |m, x| m.max(x.abs()));
-        let rounding_error = n_scores_f * f64::EPSILON * max_abs;
-        if residual_variation <= n_scores_f * rounding_error.powi(2) {
-            return Err(ElinorError::Uncomputable(
-                "The residual variation is zero.".to_string(),
-            ));
-        }
-
         // V_A
         let between_system_freedom = n_systems_f - 1.;
         let between_system_variance = between_system_variation / between_system_freedom;
-- 
2.43.0


From 207d6c98dc060388e43198cbd4ca8a0aeea80d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 14/19] Revert "fix: margin of error panics for a NaN
 significance level"

This reverts commit 7d3844974e236788ea87c47edbdd1a1c6f35f02c.
---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index 21b09b2..c605713 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if !(significance_level > 0.0 && significance_level <= 1.0) {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index be1e819..d4f5bd1 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -578,7 +578,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if !(significance_level > 0.0 && significance_level <= 1.0) {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From 18b5af3fcdf806122c666fe02d9b70e2cf72ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 15/19] Revert "fix: t-statistic of constant differences is not
 reported as uncomputable"

This reverts commit e016f9e3500f84e38d4c94eea5ce2011b07cde14.
---
 src/statistical_tests/student_t_test.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index c605713..f7ca4ed 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -207,8 +207,7 @@ impl StudentTTest {
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
     let variance = Statistics::variance(samples);
-    // The computed variance of equal samples may be non-zero due to rounding errors.
-    if variance == 0.0 || samples.iter().all(|&x| x == samples[0]) {
+    if variance == 0.0 {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
-- 
2.43.0


From 3496fbe230a129ff6a1e495dc2564f50a43f8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 16/19] fix: elinor-compare fails on scores that are all whole
 numbers

---
 elinor-cli/src/bin/compare.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 5e75bfa..1907449 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -72,9 +72,11 @@ fn main() -> Result<()> {
             .with_parse_options(csv_parse_options.clone())
             // Topic ids must be read as they are: "1" and "01" are different ids.
             .with_dtype_overwrite(Some(vec![DataType::String].into()))
+            // Whole numbers may be followed by fractions at any row.
+            .with_infer_schema_length(None)
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
-        dfs.push(df);
+        dfs.push(integers_to_floats(df)?);
     }
 
     // Get the header name of the first column.
@@ -173,6 +175,17 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Scores that are all whole numbers are read as integers.
+fn integers_to_floats(mut df: DataFrame) -> Result<DataFrame> {
+    for i in 1..df.width() {
+        if df.get_columns()[i].dtype().is_integer() {
+            let column = df.get_columns()[i].cast(&DataType::Float64)?;
+            df.replace_column(i, column)?;
+        }
+    }
+    Ok(df)
+}
+
 fn extract_metrics(df: &DataFrame) -> Vec<String> {
     df.get_columns()
         .iter()
-- 
2.43.0


From 301089c47d6c23ccee679a0b6a2668eddba09f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 17/19] fix: elinor-compare panics on an empty topic id

---
 elinor-cli/src/bin/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 1907449..3eca21c 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -63,6 +63,8 @@ fn main() -> Result<()> {
     let separator = if args.tab_separator { b'\t' } else { b',' };
     let csv_parse_options = CsvParseOptions {
         separator,
+        // An empty topic id is an id like any other.
+        missing_is_null: false,
         ..Default::default()
     };
 
-- 
2.43.0


From 5095b926b9475eff098dab193c7d71499c27a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 18/19] fix: elinor-compare exits with 0 although a table could
 not be printed

---
 elinor-cli/src/bin/compare.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 3eca21c..2c88a10 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -571,7 +571,10 @@ fn compare_multiple_systems(
 fn print_dataframe(df: &DataFrame, print_mode: PrintMode) {
     match print_mode {
         PrintMode::Pretty => {
-            df_to_prettytable(df).printstd();
+            // printstd() would ignore failures.
+            df_to_prettytable(df)
+                .print_tty(false)
+                .expect("failed printing to stdout");
         }
         PrintMode::Raw => {
             print_df_in_tsv(df);
-- 
2.43.0


From d88011898c23e5b42ae43db4e0ced9d29afee6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/19] fix: refuse comparing files whose topics differ or
 repeat

Scores were paired by a left join on the topic: a topic only in a later file
was dropped from the tests but kept in the means, and a repeated topic was
paired with every occurrence in the other files.
---
 elinor-cli/src/bin/compare.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 2c88a10..20b9318 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -99,6 +99,21 @@ fn main() -> Result<()> {
     }
     let topic_header = topic_headers[0].as_str();
 
+    // Scores are paired by topic.
+    if dfs.len() > 1 {
+        let topics = dfs.iter().map(extract_topics).collect::<Result<Vec<_>>>()?;
+        if topics.iter().any(|ids| *ids != topics[0]) {
+            return Err(anyhow::anyhow!(
+                "The topics must be the same in all input CSV files."
+            ));
+        }
+        if topics[0].windows(2).any(|ids| ids[0] == ids[1]) {
+            return Err(anyhow::anyhow!(
+                "Each topic must appear only once in an input CSV file."
+            ));
+        }
+    }
+
     println!("# Basic statistics");
     {
         let columns = vec![
@@ -188,6 +203,13 @@ fn integers_to_floats(mut df: DataFrame) -> Result<DataFrame> {
     Ok(df)
 }
 
+/// The ids of the topics in sorted order.
+fn extract_topics(df: &DataFrame) -> Result<Vec<Option<&str>>> {
+    let mut topics = df.get_columns()[0].str()?.into_iter().collect::<Vec<_>>();
+    topics.sort_unstable();
+    Ok(topics)
+}
+
 fn extract_metrics(df: &DataFrame) -> Vec<String> {
     df.get_columns()
         .iter()
-- 
2.43.0

