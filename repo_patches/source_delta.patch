From cb98484b3579bce51ec3937489a69f3fe9df2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 1/9] fix: evaluate a threshold only at the first row of each
 group of equal feature values

previous_feature_val was never updated, so losses were also computed in the
middle of tied groups, for divisions no question can make.
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..f031ac2 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -77,6 +77,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &labels[real_row_index];
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -154,6 +155,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.threshold_value = feature_value;
             }
         }
+        previous_feature_val = feature_value;
 
         let real_row_index = tuple.1;
         let label_vector = &all_labels[real_row_index];
-- 
2.43.0


From 3cb15186aa3a04d0b8d6e6e50f8412ed1730709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 2/9] fix: put every row on the false side when the split value
 exceeds the whole column

---
 common/src/data_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..830ee21 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,8 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    // no value reaches the split value: the true side stays empty
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From 2d3eae94c9195ce0b1bae59d5cfdcead0a1d1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 3/9] fix: transpose an empty set of rows instead of panicking

partition() panicked when a question sent all rows to one side.
---
 common/src/data_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..e4e386a 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -105,7 +105,8 @@ fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec
 
 pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
     let mut columns = vec![];
-    for col in 0..data_set_features[0].len() {
+    let number_of_columns = data_set_features.first().map_or(0, |row| row.len());
+    for col in 0..number_of_columns {
         let mut column = vec![];
         for row in 0..data_set_features.len() {
             column.push(data_set_features[row][col]);
-- 
2.43.0


From e8ae00bf743ddfc355d5b762a984b44fbbf4b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 4/9] fix: no NaN or infinite leaf output when the multi-class
 residuals are saturated

---
 .../grad_boost/grad_boost_leaf_output.rs              | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..0251f89 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -1,8 +1,8 @@
 use common::{
     datasets::MultiTargetDataSet,
     numerical_calculations::{
-        add_f64_slices_as_vector, calculate_average_f64_vector, divide_f64_slices_as_vector,
-        multiply_f64_slice_by_f64_scalar, sum_of_f64_vectors,
+        add_f64_slices_as_vector, calculate_average_f64_vector, multiply_f64_slice_by_f64_scalar,
+        sum_of_f64_vectors,
     },
 };
 
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    // residuals that are all exactly 0 or +-1 leave no curvature to step along
+    let numerator_over_denominator: Vec<f64> = numerator
+        .iter()
+        .zip(&denominator)
+        .map(|(&n, &d)| if d.abs() < 1e-150 { 0. } else { n / d })
+        .collect();
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From f6cca5a5c8b35d261dbd53f9d99efb92ce7aeb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 5/9] fix: softmax of large scores no longer overflows to NaN

---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..c3a7ee0 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        // softmax is invariant under a common shift, exp overflows without it
+        let max_label = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |max, element| max.max(*element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_label).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


From 35c6a79e1e0dc92e65c11480615e29aafa609891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 6/9] fix: refuse class labels that are negative, fractional or
 NaN instead of misfiling them

---
 common/src/data_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index e4e386a..ce63fad 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -96,6 +96,11 @@ fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetD
 fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
     let mut multi_target_labels = vec![];
     labels.iter().for_each(|label| {
+        assert!(
+            *label >= 0. && label.fract() == 0.,
+            "class label {} is not a class index",
+            label
+        );
         let mut multi_target = vec![0.; number_of_targets];
         multi_target[*label as usize] = 1.;
         multi_target_labels.push(multi_target);
-- 
2.43.0


From 92834c848c71620fe4d06890b3cabad697b78f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 7/9] fix: refuse feature and label files with different
 numbers of records

---
 common/src/data_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index ce63fad..68f85b5 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -41,6 +41,11 @@ pub fn read_csv_data_multi_target(
 ) -> MultiTargetDataSet {
     let data_set_features = read_data(file_path_to_features).unwrap();
     let data_set_labels = read_data(file_path_to_labels).unwrap();
+    assert_eq!(
+        data_set_features.len(),
+        data_set_labels.len(),
+        "number of feature and label records differ"
+    );
 
     let columns = create_feature_columns(&data_set_features);
 
-- 
2.43.0


From a55589696314bd464b0afaac843729a4e80fe959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 8/9] fix: rounding no longer divides rows that all carry the
 same label

---
 .../src/split_finders/split_finder_variance.rs     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/multi-target-decision-tree/src/split_finders/split_finder_variance.rs b/multi-target-decision-tree/src/split_finders/split_finder_variance.rs
index 5fa1dce..b3e893b 100644
--- a/multi-target-decision-tree/src/split_finders/split_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/split_finder_variance.rs
@@ -13,6 +13,13 @@ use crate::calculations::*;
 pub fn find_best_split(data: &MultiTargetDataSet, number_of_targets: u32) -> BestSplitResult {
     let mut best_gain = 0.0;
     let mut best_question = Question::new(0, 0.);
+    // rows that all carry the same label leave nothing to gain, rounding must not suggest otherwise
+    if data.labels.iter().all(|label| *label == data.labels[0]) {
+        return BestSplitResult {
+            gain: best_gain,
+            question: best_question,
+        };
+    }
     let number_of_labels = data.labels.len();
     let number_of_targets = number_of_targets as usize;
 
@@ -66,6 +73,13 @@ pub(crate) fn find_best_split_new_partition(
 ) -> BestSplitResult {
     let mut best_gain = 0.0;
     let mut best_question = Question::new(0, 0.);
+    // rows that all carry the same label leave nothing to gain, rounding must not suggest otherwise
+    if data.labels.iter().all(|label| *label == data.labels[0]) {
+        return BestSplitResult {
+            gain: best_gain,
+            question: best_question,
+        };
+    }
     let number_of_labels_in_subset = data.labels.len();
     let number_of_targets = number_of_targets as usize;
 
-- 
2.43.0


From c93b636011e01700289b4adbf68e109849ba8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 9/9] fix: the program no longer aborts on training files with
 fewer than eleven records

---
 main/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main/src/main.rs b/main/src/main.rs
index 33b651f..20f7987 100644
--- a/main/src/main.rs
+++ b/main/src/main.rs
@@ -17,7 +17,9 @@ fn main() {
     );
 
     let split_finder = SplitFinder::new(SplitMetric::Variance);
-    println!("{:?}", true_data.labels[10]);
+    if let Some(label) = true_data.labels.get(10) {
+        println!("{:?}", label);
+    }
 
     let tree_config = TreeConfig {
         split_finder,
-- 
2.43.0

