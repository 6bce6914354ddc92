#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
T="multi-target-decision-tree/src/"; B="multi-target-grad-boost/src/ensembles/"; C="common/src/"
def P(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
SF=T+"split_finders/split_finder_variance.rs"; TF=T+"split_finders/threshold_finders/threshold_finder_variance.rs"
PA=T+"utils/data_partitioner.rs"; DP=C+"data_processor.rs"; RB=T+"tree/tree_builders/regression_tree_builder.rs"
GB=T+"tree/tree_builders/grad_boost/grad_boost_tree_builder.rs"; AB=T+"tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs"
LO=T+"tree/tree_builders/grad_boost/grad_boost_leaf_output.rs"; SC=T+"utils/scorer.rs"; CALC=T+"utils/calculations/calculations.rs"
ps=[
P("C01","Split search picks a threshold with maximal variance reduction",
 "For every dataset with finite features and moderate labels, the column and threshold returned by the split search achieve, when the rows are actually divided by 'value >= threshold', a reduction of the label variance (summed over all targets, sides weighted by their size) that no other column and observed value beats. This holds for the search on rows and for the search on pre-sorted columns that trees are grown with, and whatever the row order, duplicates among feature values, number of columns, targets and rows.",
 ["inputs"],"all datasets (rows, columns, targets, tied and extreme feature values) and number of worker threads",
 "The tests look at three hand-made rows and at the first split of iris; none has a tied value whose group carries different labels next to the best split.",
 [SF,TF,CALC,C+"feature_sorter.rs"],[("one left-to-right sweep per sorted column keeping running sums for both sides",TF+":determine_best_threshold"),("strict maximum over columns",SF+":find_best_split")],
 [("left/right value tracker","running count, sums and sums of squares of the two sides",TF)],["SplitFinder::find_best_split","questions of trees grown from pre-sorted columns"]),
P("C02","Reported gain is the variance reduction the split really achieves",
 "The gain reported with a split equals, up to floating-point rounding, the variance reduction obtained by dividing the rows with the returned question; a positive gain always comes with a threshold that occurs in the chosen column and leaves rows on both sides. A gain of zero is reported exactly when no threshold reduces the variance, in particular for a single row, for identical labels and for constant columns; it is never negative and never NaN. Trees, row-based or pre-sorted, divide a node exactly by such a gain.",
 ["inputs"],"all datasets (rows, columns, targets, tied values)",
 "Tests check the threshold value only; the gain, on which every stop decision of every builder depends, is never compared with anything.",
 [SF,TF,CALC],[("gain = total variance - best loss, starting from 0",SF+":find_best_split"),("loss evaluated only where the sorted value changes",TF+":determine_best_threshold")],(),["SplitFinder::find_best_split -> BestSplitResult"]),
P("C03","Dividing a dataset by a question loses, duplicates and mixes nothing",
 "Dividing a dataset by any question puts every row whose value in the asked column is greater than or equal to the asked value on the true side and every other row on the false side, each exactly once, unchanged, still paired with its own label vector and in the original order. The column-wise copy kept in each side is the transposition of that side's rows, and a question that sends all rows to one side leaves the other side empty.",
 ["inputs"],"all datasets and all questions, including thresholds below the minimum, above the maximum and equal to an observed value",
 "No test calls the division directly; trees exercise only thresholds that the split search chose.",
 [PA,C+"question.rs",C+"data_reader.rs"],[("Question::solve on each (row, label) pair",PA+":partition"),("columns rebuilt from the rows",C+"data_reader.rs:create_feature_columns")],(),["data_partitioner::partition"]),
P("C04","Index-based division of pre-sorted data equals the row-wise division",
 "Dividing a dataset held as pre-sorted columns by any column and threshold, and dividing the results again any number of times, always yields the same groups of rows as the row-wise rule 'value >= threshold': each side keeps exactly its rows' labels in original order, and in each column exactly its rows' values with their original row numbers, sorted ascending. This holds for every threshold, also one above or below all values of the group being divided.",
 ["inputs","histories"],"all datasets and all sequences of divisions with arbitrary columns and thresholds",
 "The three unit tests of this code need a data file that is not in the repository and fail; they would divide once, at one value that occurs in the data.",
 [DP,C+"feature_sorter.rs",C+"datasets.rs"],[("membership marks per original row number",DP+":collect_indices_for_partitioning"),("stable filtering of every sorted column",DP+":collect_partitioned_feature_columns")],
 [("sorted_feature_columns","(value, original row number), ascending, for the rows of this node",C+"datasets.rs")],["data_processor::create_dataset_with_sorted_features","data_processor::new_partition"]),
P("C05","Leaves partition the training set and lookup agrees with growth",
 "In every tree that is built, the leaves together hold every training row exactly once with its own label, and answering the questions from the root ('value >= threshold' goes to the true branch) leads each training row to the very leaf that holds it. Every inner node has exactly two branches and no leaf data, every leaf has leaf data and no branches, and no leaf is empty.",
 ["inputs","configurations"],"all training sets, depth limits, single- and multi-threaded building, row-based and pre-sorted building",
 "Tests look only at accuracy on bundled data, which stays above their thresholds when a few rows land in the wrong leaf.",
 [RB,PA,T+"tree/node.rs",SC],[("recursive growth: true side becomes the true branch",RB),("leaf lookup",SC+":find_leaf_node_for_data")],(),["RegressionMultiTargetDecisionTree::new","RegressionMultiTargetDecisionTreeNewPartition::new"]),
P("C06","Trees stop growing exactly at the depth limit or when nothing is gained",
 "No path from the root asks more questions than the configured maximum number of levels (zero means a single leaf), and every node above that limit is divided, by a best question, whenever some question reduces the label variance, and is a leaf when all its rows carry the same label or no question separates its rows. This holds for every kind of tree: row-based, pre-sorted, gradient-boosting and approximate, single- or multi-threaded.",
 ["inputs","configurations"],"all training sets and all depth limits, in all seven builder variants",
 "The tests build with a limit of 0, 3, 8 or 12 and never look at the depth or the shape of the tree.",
 [RB,GB,AB,SF],[("gain == 0.0 || current_level == max_levels",RB),("same test duplicated in six more functions",GB+", "+AB)],(),["public tree fields: question, true_branch, false_branch, leaf"]),
P("C07","Multi-threading changes nothing: same trees and models on any schedule",
 "For the same data and parameters, building a tree or training an ensemble gives identical trees, leaves and predictions whether multi-threading is switched on or off, with any number of worker threads, however the threads are scheduled, and on every repetition.",
 ["schedules","inputs","configurations"],"all interleavings of the recursive fork/join and of the per-column and per-row parallel loops; all thread-pool sizes",
 "The tests train multi-threaded without asserting anything, and never compare with a single-threaded run or a second schedule.",
 [RB,GB,AB,SF,DP,B+"MultiClassBoosting/common_multi_class_boosting_functions.rs",B+"RegressionBoost/regression_boost_executor_functions.rs"],[("rayon::join on disjoint halves",RB+":build_regression_tree_using_multiple_threads"),("order-preserving parallel collect, sequential maximum",SF)],(),["tree and model fields, predictions"]),
P("C08","Row-based and pre-sorted tree building produce equivalent trees",
 "For every training set and depth limit, the tree built from pre-sorted columns asks the same questions in the same places, holds the same rows and labels in corresponding leaves and gets the same error score as the tree built from rows, except that either may choose differently among questions whose variance reductions are equal.",
 ["inputs","configurations"],"all training sets and depth limits",
 "The only test that builds a pre-sorted tree needs a data file that is not in the repository, fails, and asserts nothing.",
 [RB,DP,TF,SC],[("two parallel implementations of search, division and growth",RB+":build_regression_tree vs build_regression_tree_new_partition")],(),["both trees' public fields; both mean-squared-error scorers"]),
P("C09","Tree classification is the majority class of the leaf the row belongs to",
 "For every tree and every row, the predicted class vector has a single 1 at the class held by most training rows of the leaf reached by the row (the lowest such class on a tie) and 0 elsewhere. The accuracy on a test set is the exact fraction of its rows whose predicted vector equals their label vector.",
 ["inputs"],"all one-hot training sets, trees, query rows and test sets",
 "Four data sets with near-pure leaves: ties, minority labels and classes beyond the first ten never decide an assertion.",
 [SC,T+"utils/class_counter.rs",C+"question.rs"],[("class counts of leaf labels and first maximum",SC+":predict_class"),("equality count",SC+":calculate_accuracy")],(),["scorer::classification::{predict_class, calculate_accuracy}"]),
P("C10","Tree regression error is the mean squared error of leaf averages",
 "For every tree and test set, the reported error is the average over test rows of the average over targets of the squared difference between the row's label and the mean label of the training rows in the leaf reached; the row-based and the pre-sorted scorer obey the same rule. On its own training set, a tree's error never exceeds that of a tree with a smaller depth limit.",
 ["inputs","configurations"],"all training sets, depth limits and test sets",
 "The tests that compute this error need a missing data file, and only print it.",
 [SC],[("average label vector, mean squared difference",SC+":regression")],(),["scorer::regression::{calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition}"]),
P("C11","Ensemble score = initial guess + learning rate x the reached leaf of every tree",
 "For every trained ensemble, row and number of rounds, the ensemble's raw score is the initial guess plus the learning rate times the output of the leaf reached in every tree, each tree counted exactly once; the initial guess is the mean training label for regression and 1/number-of-classes in every entry for the two classifiers. A regression ensemble predicts exactly this vector; with zero rounds or zero learning rate it predicts the initial guess.",
 ["inputs","configurations"],"all training sets, query rows, round counts (also 0), learning rates and tree limits",
 "Boosting tests only print; no regression ensemble is trained by a passing test.",
 [B+"common_boosting_functions.rs",B+"boosting_loop.rs",B+"RegressionBoost/regression_boost_ensemble.rs","multi-target-grad-boost/src/tree_traverse.rs"],[("sum over trees of weighted leaf outputs",B+"common_boosting_functions.rs:predict_instance"),("initial guess",B+"boosting_loop.rs:determine_initial_guess")],(),["model fields trees, initial_guess, learning_rate; predict"]),
P("C12","Each regression round fits the residuals left by the rounds before it",
 "In a trained regression ensemble, the tree of every round is a variance-greedy tree, within the depth limit, over the differences between the training labels and the prediction of the ensemble made of the earlier rounds, and each of its leaves outputs the mean of these differences over the training rows it receives. There is exactly one tree per requested round.",
 ["histories","inputs","configurations"],"all training sets, and every round of every training history, for all learning rates and tree limits",
 "No passing test trains a regression ensemble; the relation between rounds is never examined anywhere.",
 [B+"RegressionBoost/regression_boost_executor_functions.rs",B+"common_boosting_functions.rs",GB,LO],[("residuals = label - current label",B+"RegressionBoost/regression_boost_executor_functions.rs:calculate_residuals"),("current label += rate * leaf output",B+"common_boosting_functions.rs:update_dataset_labels")],
 [("mutable_labels","score of the ensemble so far for each training row",B+"boosting_types.rs")],["model fields"]),
P("C13","Training error of regression boosting never increases from round to round",
 "For every training set, depth limit and learning rate in (0, 1], the squared training error of the regression ensemble made of the first t+1 trees is at most that of the first t trees, and the score reported for the training set is the mean squared error of the predictions. The first-round start is the best constant prediction.",
 ["histories","inputs"],"all training sets, depth limits, learning rates in (0,1] and all rounds",
 "No test evaluates any ensemble after a partial number of rounds or compares errors.",
 [B+"RegressionBoost/regression_boost_ensemble.rs",B+"RegressionBoost/regression_boost_executor_functions.rs",LO,C+"numerical_calculations.rs"],[("leaf output is the leaf mean, shrunk by the rate",LO+":calculate_leaf_output_squared_loss")],(),["RegressionBoostModel::{train, predict, calculate_score}"]),
P("C14","Each multi-class round fits softmax residuals with the Newton leaf step",
 "In a trained multi-class ensemble, the tree of every round is a variance-greedy tree over 'true class vector minus softmax of the scores of the earlier rounds', and each leaf outputs, per class, (K-1)/K times the sum of these residuals over the sum of |r|(1-|r|) for the training rows it receives. There is exactly one tree per requested round.",
 ["histories","inputs","configurations"],"all one-hot training sets, all rounds, learning rates and tree limits",
 "The multi-class tests print an accuracy and assert nothing; the one leaf-output test prints.",
 [B+"MultiClassBoosting/common_multi_class_boosting_functions.rs",B+"MultiClassBoosting/MultiClassBoost/multi_class_boost_executor_functions.rs",LO,GB],[("softmax residuals",B+"MultiClassBoosting/common_multi_class_boosting_functions.rs:calculate_residuals"),("leaf output",LO+":calculate_leaf_output_multi_class_loss")],(),["model fields"]),
P("C15","The approximate (AMG) ensemble trains on the very leaves it predicts with",
 "In an approximate ensemble each leaf stores only the largest class output of its exact multi-class leaf step and that class; expanded, it gives that value to that class and minus that value divided by (number of classes - 1) to each other class. Every round is fitted to the softmax residuals of the scores obtained by adding exactly these expanded, learning-rate-weighted leaves of the earlier rounds, and prediction adds the same quantities.",
 ["histories","inputs","configurations"],"all one-hot training sets, class counts, rounds, learning rates and tree limits",
 "The AMG tests print an accuracy and assert nothing; training and prediction expand leaves in two separate pieces of code.",
 [B+"MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs",B+"MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs",B+"MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs",AB],[("training-time update",B+"MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs:update_dataset_labels"),("prediction-time expansion",B+"MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs:construct_approximate_leaf_output")],(),["AMGBoostModel fields, predict"]),
P("C16","Models stay finite and keep what they learned for any number of rounds",
 "Training any of the three ensembles on finite data of moderate size with at least two classes, a learning rate in (0, 1] and any number of rounds never produces a NaN or infinite leaf output or prediction. In particular, a classifier whose trees separate the classes of the training data (every leaf holds rows of one class) and that classifies them perfectly does not lose that when trained for more rounds.",
 ["histories","inputs","configurations"],"all training sets, learning rates and long round counts, in particular rounds after the class probabilities have saturated",
 "The tests train 50 rounds with rate 0.1 and assert nothing; saturation needs more rounds or a larger rate.",
 [LO,B+"MultiClassBoosting/common_multi_class_boosting_functions.rs",AB],[("division by the sum of |r|(1-|r|)",LO+":calculate_leaf_output_multi_class_loss"),("softmax",B+"MultiClassBoosting/common_multi_class_boosting_functions.rs:calculate_probabilities_of_predictions")],(),["model fields, predict"]),
P("C17","Training is reproducible and more rounds only append trees",
 "Training twice with the same data and parameters gives the same model, and the model trained for t rounds is a prefix of the model trained for more rounds: same initial guess, same first t trees. Predicting and scoring, any number of times and in any order, never changes a model or a later answer, and the prediction for a row does not depend on which other rows are asked for in the same batch.",
 ["histories","inputs"],"all training sets and parameters; all sequences of train, predict, batch predict and score calls",
 "Every test trains once, predicts once and scores once.",
 [B+"boosting_loop.rs",B+"RegressionBoost/regression_boost_ensemble.rs",B+"MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs",B+"MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs"],[("training state is local to one call; models are immutable",B+"boosting_loop.rs")],(),["GradientBoostedEnsemble::{train, predict, calculate_all_predictions, calculate_score}"]),
P("C18","Reading CSV files is faithful, or refused",
 "Reading a data file yields every record after the header, in order, with every value as written; the last column of a single-file data set becomes the label and the rest the features, a class label c becomes a vector with a single 1 at position c, two-file data sets pair the i-th feature record with the i-th label record, and the column-wise copy is the transposition of the rows. Input that cannot be represented this way (non-numeric or missing fields, records of unequal length, class labels that are not integers in range, a different number of feature and label records) is refused, never silently altered, dropped or mispaired.",
 ["inputs"],"all file contents, class counts and file pairs",
 "Tests read a few well-formed bundled files and mostly print them.",
 [C+"data_reader.rs",C+"datasets.rs"],[("csv deserialisation to Vec<f64>",C+"data_reader.rs:read_data"),("one-hot encoding",C+"data_reader.rs:create_multi_target_labels"),("transposition",C+"data_reader.rs:create_feature_columns")],(),["read_csv_data, read_csv_data_one_hot_multi_target, read_csv_data_multi_target, get_feature_names"]),
P("C19","The printed tree is the tree",
 "Printing a tree writes, for every inner node, its question with the name of the asked feature and the threshold, then the true branch, then the false branch, each under its own marker and indented one step deeper than its parent, and for every leaf one prediction line with the leaf's data. The decision rules can be read back from the print-out without loss, for every tree and every list of feature names.",
 ["inputs"],"all trees (any shape and depth) and feature names",
 "The print tests print a single leaf and assert nothing.",
 [T+"tree/tree_print.rs",C+"question.rs"],[("recursive printing, true before false",T+"tree/tree_print.rs:print_tree_regression"),("Question::to_string",C+"question.rs")],(),["standard output of print_tree_regression"]),
P("C20","Ensemble classifiers answer with one best-scoring class, and score exactly",
 "For every trained classifier ensemble and every row, the prediction is a vector of length number-of-classes with a single 1, at a class whose raw score is largest (the first of them on a tie), and 0 elsewhere. The score on a test set is the exact fraction of rows whose prediction equals the label, and batch prediction returns one answer per row, in row order, equal to predicting each row alone.",
 ["inputs","configurations"],"all trained classifier ensembles, class counts, query rows and test sets",
 "The tests print predictions and scores and assert nothing about them.",
 [B+"MultiClassBoosting/common_multi_class_boosting_functions.rs",B+"MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs",B+"MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs"],[("first maximum to one-hot",B+"MultiClassBoosting/common_multi_class_boosting_functions.rs:get_binary_prediction"),("equality count",B+"MultiClassBoosting/common_multi_class_boosting_functions.rs:calculate_accuracy_from_predictions")],(),["predict, calculate_all_predictions, calculate_score"]),
P("C21","Vector arithmetic is element-wise, complete, and refuses unequal lengths",
 "Adding, subtracting, multiplying, dividing, scaling, summing and averaging label vectors, and their mean squared difference, give for every length the element-wise result over all elements and all vectors. Two-operand operations on vectors of different length are refused rather than silently shortened.",
 ["inputs"],"all vectors and lists of vectors of any length",
 "One test with one three-element vector combined with itself.",
 [C+"numerical_calculations.rs"],[("assert_eq! on lengths, zip/map",C+"numerical_calculations.rs")],(),["common::numerical_calculations::*"]),
P("C22","A tree depends only on which rows it is given and how each feature orders them",
 "Reordering the training rows, or replacing a feature column by any strictly increasing function of it, gives a tree that asks the corresponding questions and groups the training rows in the same way, and duplicating every row changes no question; adding a column that is a copy of, or constant over, existing data does not change the achieved error. Only questions with equal variance reduction may be exchanged for one another.",
 ["inputs"],"all training sets, row permutations, strictly increasing feature maps and duplications",
 "Every test uses one fixed row order of one fixed file.",
 [TF,SF,C+"feature_sorter.rs",RB],[("thresholds are evaluated only between distinct sorted values",TF)],(),["trees built from related training sets"]),
P("C23","The bundled program trains on the training files and reports the held-out error",
 "Run in a directory holding the four data files (at least one test record), the program trains a multi-threaded regression ensemble (300 rounds, rate 0.1, at most 3 levels) on the training pair only, and prints the mean squared error on the test pair, its square root, the first test label and the ensemble's prediction for the first test row. For all data files these figures are those of that ensemble, on every run.",
 ["inputs","configurations"],"all contents of the four data files with ten targets",
 "The program has no test and its training file is not in the repository.",
 ["main/src/main.rs"],[("wiring of reader, config, training, scoring",  "main/src/main.rs:main")],(),["standard output and exit status of the program"]),
P("C24","A regression ensemble's score is the MSE of its in-order batch predictions",
 "For every trained regression ensemble and every non-empty test set, not only the training set, the reported score is the mean, over the test rows and the targets, of the squared difference between the row's label and the prediction for that row; every row counts once and equally. Batch prediction returns one answer per row, in row order, equal to predicting each row alone.",
 ["inputs","schedules"],"all trained regression ensembles and all test sets (any size, repeated rows, labels far from the predictions)",
 "No passing test trains or scores a regression ensemble.",
 [B+"RegressionBoost/regression_boost_ensemble.rs",B+"common_boosting_functions.rs",C+"numerical_calculations.rs"],[("mean of squared differences over rows and targets",B+"RegressionBoost/regression_boost_ensemble.rs:calculate_mean_squared_error"),("one prediction per row",B+"RegressionBoost/regression_boost_ensemble.rs:calculate_all_predictions")],(),["RegressionBoostModel::{predict, calculate_all_predictions, calculate_score}"]),
P("C25","Models follow the units and the order of the targets",
 "Multiplying all labels by one non-zero constant, adding a constant to each target, listing the targets in another order or each of them equally often, or adding a target that is the same for all rows changes no decision: the tree asks the same questions (or others of equal variance reduction), the same training rows meet in its leaves, and leaf outputs and errors follow the labels (errors by the square of the constant). A regression ensemble trained on labels multiplied by a power of two predicts the multiplied values.",
 ["inputs"],"all training sets of moderate labels and all such changes of units and targets",
 "Tests use one fixed data set with fixed labels; nothing compares two models.",
 [SF,TF,CALC,GB,LO,SC],[("variance summed over targets; gain = 0 as the only stop value",SF),("leaf mean",LO)],(),["trees and regression ensembles trained on related label sets"]),
P("C26","Growing is local: a deeper limit only extends, a subtree is a tree of its rows",
 "For every training set, the tree grown with a deeper level limit is identical to the tree with the smaller limit above that limit and only continues where the smaller tree stopped at its limit; and what hangs below any inner node equals the tree grown, with the remaining levels, from exactly the training rows that reach this node. No decision depends on other branches, on the levels left or on how the node was reached.",
 ["inputs","configurations"],"all training sets, all pairs of level limits and all inner nodes, for all tree builders",
 "Tests grow one tree per data set and never compare two.",
 [RB,GB,AB,SF,PA],[("recursion over (subset, level + 1)",RB),("recursion over (subset, level + 1)",GB)],(),["trees built with different limits and from subsets"]),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in ps: f.write(json.dumps(p)+"\n")
assert all(len(p["title"])<=80 for p in ps), [p["id"] for p in ps if len(p["title"])>80]
