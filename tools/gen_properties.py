"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

DS = "rankeval/dataset/dataset.py"
SV = "rankeval/dataset/svmlight_format.py"
CC = "rankeval/dataset/_svmlight_format.cpp"
RT = "rankeval/model/rt_ensemble.py"
NODATA = "The suite's %s tests need dataset/model files that are not in the repository and fail for that reason, so today nothing pins this behaviour at all; even with the files they sample one or two fixed inputs."

p("C01", "Loading an SVMlight file yields exactly the values, labels and qids in it",
  "Loading a well-formed SVMlight/LETOR file gives one row per example line, in file order, with that line's label, query id and feature values (nearest single-precision number; every absent feature is 0 whatever the sparsity pattern, comments, line ends, spacing or number notation). The number of features is the largest 1-based feature id seen in any line, and rows never leak into one another. The result is the same for a plain, gzip or bzip2 path, a file descriptor and a binary file-like object, and for several files loaded together.",
  ["inputs"], "every well-formed SVMlight text (any sparsity pattern, empty rows, growing feature count, comment lines and trailing comments, whitespace, number notation) and every kind of source it can be loaded from",
  "The 17 loader tests use one 4-line file; padding, row growth and zero filling depend on the order in which feature ids first appear across lines, which is a property of the whole input space.",
  [SV, CC, DS], [("line parser and dense re-shaping", CC), ("source opening", SV), ("Dataset.load", DS)],
  ["load_svmlight_file(s)", "Dataset.load"])
p("C02", "Dumping a dataset and loading it back reproduces the dataset",
  "Dumping data in SVMlight format and loading the produced file gives back the same number of rows, the same labels and query ids, the same query boundaries and the same feature values (up to the printed decimal precision), whatever the memory layout or numeric type of the arrays, the number of rows and the kind of destination. The produced text is itself valid SVMlight with increasing 1-based (or, on request, 0-based) feature ids, and an independent reader of the format recovers the same data; query ids that do not fit in 32 bits are refused rather than replaced. Dumping never modifies the arrays or the dataset it is given.",
  ["inputs"], "every dense matrix, label vector and query grouping, in every memory order and numeric type, every destination (path, .gz, .bz2, descriptor, file-like)",
  "The 4 dumper tests round-trip one small C-ordered float32 array; layout, single-row and dtype dependence are outside anything they sample.",
  [SV, CC, DS], [("dump_svmlight_file", SV), ("dump_file", CC), ("Dataset.dump", DS)],
  ["dump_svmlight_file", "Dataset.dump"])
p("C03", "Malformed or failing SVMlight input is rejected cleanly, never crashing",
  "Whatever bytes are given as an SVMlight file, and whenever the source fails part-way (read error, truncated compressed stream, wrong stream type), loading either returns a consistent dataset or raises an ordinary Python exception: the process never crashes, accesses memory outside its buffers, or loses memory in proportion to the lines read. A line whose label is not a number, that has a token not of the form id:number, feature ids that are negative or not increasing within the line, or an id beyond 32 bits, is rejected with an error. Files the loader opened are closed, whereas descriptors and file objects given by the caller stay open.",
  ["inputs", "fault_sequences"], "every byte string, and every position at which reading the source can fail",
  "Three fixed malformed files are tested; memory safety over arbitrary bytes and failure points cannot be settled by examples.",
  [CC, SV], [("parser error handling and line reading", CC), ("file closing", SV)],
  ["load_svmlight_file(s)"])
p("C04", "Query structure of a dataset partitions its rows, and subsets keep it",
  "For data whose rows are grouped by query, the queries of a dataset appear in order of first appearance with consecutive, non-empty row ranges that exactly cover all rows; iteration, query sizes, per-row query ids and per-query offset lookup all agree with that grouping, and looking up an absent query raises a lookup error. Taking the subset for given query ids keeps exactly the rows of those queries in the original order with their labels, and taking a subset of features keeps exactly those columns in the requested order with rows, labels and queries unchanged. Subsetting leaves the original dataset unmodified, and query ids that are not as many as the rows are refused.",
  ["inputs"], "every grouping of rows into queries (any non-negative ids, any order, any sizes including one row or one query), every subset of query ids and features",
  NODATA % "dataset", [DS], [("query offsets construction and accessors", DS), ("subset, subset_features", DS)],
  ["Dataset public methods"])
p("C05", "Train/validation/test split is a partition by whole queries of the asked sizes",
  "Splitting a dataset assigns every query, with all its rows, labels and query id, to exactly one of train, validation (if asked for) and test; rows keep their original relative order inside each part. Train and validation get the rounded requested share of the queries and test gets all the others (possibly none). The assignment is a function of the random state given, an integer seed repeats it, and invalid sizes are rejected.",
  ["inputs", "configurations"], "every dataset, every pair of sizes in [0,1] with sum at most 1 (including those leaving no test query), every seed",
  NODATA % "split", [DS], [("Dataset.split", DS)], ["Dataset.split"])
p("C06", "K-fold splitting partitions the queries and rotates the folds",
  "For every fold of a k-fold split the train, validation and test query sets are disjoint and together contain every query of the dataset; over all folds every query is in the test part exactly once and in the validation part exactly once. Folds have equal size up to the remainder, which goes to a single fold. The datasets yielded contain exactly the rows of those queries in original order, the query-id mode yields the same partition without data, and without shuffling the folds follow dataset order.",
  ["inputs", "configurations"], "every number of queries and of folds (2 <= folds <= queries), shuffled or not, data or ids only",
  NODATA % "k-fold", [DS], [("Dataset.kfold", DS)], ["Dataset.kfold"])
p("C07", "Datasets are equal (and hash equal) exactly when their contents are",
  "Two datasets compare equal exactly when they have the same feature matrix, labels and per-row query assignment, regardless of name and of how the arrays are laid out in memory; in particular datasets of different shape or different query boundaries are unequal, and comparing never fails. Inequality is the negation of equality, equal datasets have equal hashes, and a dataset works as a dictionary key: a lookup finds an entry if and only if an equal dataset was stored.",
  ["inputs"], "every pair of datasets, in particular pairs differing in a single value, a shape, a query boundary or only in memory layout",
  NODATA % "dataset comparison", [DS], [("Dataset.__eq__, __ne__, __hash__", DS), ("uses: score cache, ideal-DCG cache", RT + "; rankeval/metrics/ndcg.py")],
  ["==, !=, hash(), dict of datasets"])
p("C08", "QuickRank models load as exactly the ensemble written in the file",
  "Loading a QuickRank XML model gives the trees of the file in order with their weights, and every split node keeps its feature (converted from 1-based to 0-based), its threshold and its left/right children, every leaf its output, all as the nearest single-precision numbers. Consequently scoring with the loaded model follows, for every instance, the path the file prescribes (left when value <= threshold) and sums weight times leaf output.",
  ["programs", "inputs"], "every well-formed QuickRank ensemble (any tree shapes, single-leaf trees, chains, weights, feature ids) and every instance, including values equal to thresholds",
  "Two tests read node counts from one fixed model; child links, features, thresholds and weights over arbitrary tree shapes are untested.",
  ["rankeval/model/proxy_QuickRank.py", RT], [("ProxyQuickRank.load", "rankeval/model/proxy_QuickRank.py")], ["RTEnsemble(file, format='QuickRank')", "score"])
p("C09", "LightGBM models load as exactly the ensemble written in the file",
  "Loading a LightGBM text model gives the trees of the file in order with unit weight, each with its split features, thresholds, children and leaf values (nearest single-precision numbers), whatever the tree shapes, including trees that are a single leaf. Scoring the loaded model agrees with evaluating the LightGBM ensemble itself (left when value <= threshold, both in single precision) on every instance.",
  ["programs", "inputs"], "every numerical-split LightGBM text model (any shapes, single-leaf trees) and every instance",
  NODATA % "LightGBM proxy", ["rankeval/model/proxy_LightGBM.py", RT], [("ProxyLightGBM.load", "rankeval/model/proxy_LightGBM.py")], ["RTEnsemble(file, format='LightGBM')", "score"])
p("C10", "XGBoost models load as exactly the ensemble written in the file",
  "Loading an XGBoost text dump gives the boosters of the file in order with unit weight, each with its split features, children (whatever numbering of the nodes the dump uses) and leaf values, and a default base score of 0.5. Since XGBoost goes to the yes child when value < threshold, an instance is routed to the yes child exactly when its single-precision value is strictly below the single-precision threshold, for thresholds of every magnitude and sign.",
  ["programs", "inputs"], "every numerical-split XGBoost dump (any shapes, sparse node ids, with or without statistics) and every instance, especially values equal or adjacent to thresholds of any magnitude",
  NODATA % "XGBoost proxy", ["rankeval/model/proxy_XGBoost.py", RT], [("ProxyXGBoost.load", "rankeval/model/proxy_XGBoost.py")], ["RTEnsemble(file, format='XGBoost')", "score"])
p("C11", "Jforests and CatBoost models load as exactly the ensemble in the file",
  "Loading a Jforests XML model gives its trees with their weights, split features, thresholds, children and leaf outputs (also when a tree is a single leaf); loading a CatBoost model exported to CoreML gives its trees with their splits (a value goes to the true child when it is > the threshold, both in single precision), children and leaf values, whatever the individual tree shapes and depths. Scoring the loaded model agrees with evaluating the trees described by the file on every instance.",
  ["programs", "inputs"], "every well-formed Jforests or CatBoost/CoreML ensemble (trees of different shapes and sizes in one model) and every instance",
  NODATA % "Jforests and CatBoost proxy", ["rankeval/model/proxy_Jforests.py", "rankeval/model/proxy_CatBoost.py", RT],
  [("ProxyJforests.load", "rankeval/model/proxy_Jforests.py"), ("ProxyCatBoost.load", "rankeval/model/proxy_CatBoost.py")], ["RTEnsemble(file, format=...)", "score"])
p("C12", "Scikit-learn gradient boosting models survive export and load",
  "Exporting a fitted scikit-learn gradient-boosting regressor to its text format and loading that file gives a model whose scores agree with the regressor's own predictions on every instance (up to the single precision of scores, routing exactly as the regressor does), with the same trees in the same order, the same learning rate and the same initial score.",
  ["programs", "inputs"], "every fitted regressor (any depth, number of trees, learning rate, target scale) and every instance",
  NODATA % "scikit-learn proxy", ["rankeval/model/proxy_ScikitLearn.py", RT], [("ProxyScikitLearn.save / load", "rankeval/model/proxy_ScikitLearn.py")], ["ProxyScikitLearn.save", "RTEnsemble(format='ScikitLearn')"])
p("C13", "Saving a model in QuickRank format and reloading it gives the same model",
  "For a model loaded from any supported format, saving it as QuickRank XML reports success and reloading the file gives the same trees, weights, splits, children and leaf outputs, hence identical scores on every dataset when the same base score and learning rate are given. Saving never changes the model.",
  ["programs", "inputs"], "every ensemble (any origin, shapes, weights, magnitudes of thresholds and outputs) and every dataset",
  "One test saves one model and compares node counts; precision and structure over arbitrary ensembles are untested.",
  ["rankeval/model/proxy_QuickRank.py", RT], [("ProxyQuickRank.save / load", "rankeval/model/proxy_QuickRank.py")], ["RTEnsemble.save", "RTEnsemble"])
p("C14", "Unsupported formats and constructs are refused instead of misread",
  "Asking for an unknown dataset or model format, or loading a model that uses a construct the library declares unsupported (LightGBM categorical features, linear trees, averaged ensembles, splits that are not <= or missing-value routing; XGBoost splits other than feature id < threshold; CatBoost comparisons other than > and <=; scikit-learn estimators other than gradient boosting), raises an error instead of loading a model with a different meaning. Scoring a dataset that has fewer features than the model uses is refused with an error, and scoring one with at least as many is accepted. Saving to a format without a writer is refused.",
  ["programs", "inputs"], "every otherwise valid model file with one unsupported construct inserted at any place, every unknown format name, every feature-count mismatch",
  "Two tests try one bogus format name each; the per-construct refusals have no working test.",
  ["rankeval/model", DS, RT], [("format checks in each proxy", "rankeval/model"), ("feature compatibility check", RT)], ["RTEnsemble", "Dataset.load/dump", "score"])
p("C15", "Scores, partial scores and leaves follow the tree ensemble semantics",
  "The score of an instance is base score plus learning rate times the sum over trees of weight times the output of the leaf it reaches, where a split sends it left exactly when its feature value is <= the threshold. Detailed scoring also returns, for every instance and tree, the leaf reached and that tree's contribution, with the contributions of a row adding up to its score; basic and detailed scores agree. Each row's results depend on that row alone: not on other rows, their order, the number of threads or the memory layout of the features.",
  ["inputs", "programs", "schedules"], "every ensemble, dataset, base score and learning rate, any thread count and row order, values equal to thresholds and infinite",
  NODATA % "scoring", ["rankeval/scoring/_efficient_scoring.pyx", "rankeval/scoring/scorer.py", RT],
  [("basic_scoring / detailed_scoring", "rankeval/scoring/_efficient_scoring.pyx"), ("Scorer", "rankeval/scoring/scorer.py"), ("learning rate and base score", RT)], ["RTEnsemble.score", "Scorer"])
p("C16", "Score caching never changes the scores a caller gets",
  "Whatever sequence of basic, detailed, cached and uncached scoring calls, cache clearings, copies and prunings is made over several datasets and models, including calls that fail, each scoring call returns exactly what a fresh model would return for that dataset without any cache. Learning rate and base score are applied exactly once.",
  ["histories", "fault_sequences"], "every sequence of scoring operations over a family of similar datasets (equal copies, datasets differing in one value or query boundary), with failing calls interleaved",
  NODATA % "scoring", [RT, "rankeval/scoring/scorer.py", DS], [("per-model score cache", RT), ("Scorer memo", "rankeval/scoring/scorer.py")], ["RTEnsemble.score/clear_cache/copy"])
p("C17", "Pruned copies are prefixes, and structure statistics match the trees",
  "Copying a model with a number of trees, or loading it with a tree limit, gives exactly the first trees of the original (all of them when the limit is not smaller), scoring like that prefix, and leaves the original unchanged and independent of the copy. The reported numbers of trees, nodes, leaves, maximum leaves, leaf tests and tree heights equal those of the trees in the model.",
  ["programs", "inputs"], "every ensemble and every tree count from 1 to beyond its size, any sequence of copies",
  NODATA % "model", [RT], [("copy / pruning / statistics", RT)], ["RTEnsemble.copy", "n_trees=", "num_leaves, num_nodes, height_trees, max_leaves, is_leaf_node"])
p("C18", "DCG and NDCG equal their definitions",
  "For every query DCG equals the sum over the documents ranked by decreasing predicted score (ties in any order), up to the cutoff, of gain(label) divided by log2(rank+1), with the linear or exponential gain as configured; NDCG is DCG divided by the DCG of the ideal ordering at the same cutoff, and the configured no-relevant-results value when that is zero. Dataset evaluation returns the per-query values in query order and their mean. Evaluating a query alone, the dataset again, or other datasets in between gives the same values.",
  ["inputs", "histories", "configurations"], "every query (labels, predictions, size), cutoff above, at or below the query size, both gain implementations, every sequence of evaluations with one metric object",
  NODATA % "NDCG/DCG", ["rankeval/metrics/dcg.py", "rankeval/metrics/ndcg.py"], [("DCG", "rankeval/metrics/dcg.py"), ("NDCG and its ideal-DCG cache", "rankeval/metrics/ndcg.py")], ["DCG, NDCG: eval, eval_per_query"])
p("C19", "Precision, recall, MAP and MRR equal their definitions",
  "With documents ranked by decreasing predicted score and relevance meaning label >= threshold: precision is the fraction of relevant documents among the first min(cutoff, size), recall the fraction of the query's relevant documents found there, and MRR the reciprocal rank of the first relevant document within the cutoff (0 if none there). MAP is the sum of the precisions at the ranks of the documents with non-zero label within the cutoff, divided by the smaller of the number of ranked documents considered and of the query's such documents; max-label precision is the fraction of the first min(cutoff, size) documents having the query's highest label. Queries with no relevant documents at all (for recall and MAP) get the configured value.",
  ["inputs", "configurations"], "every query, cutoff, relevance threshold and no-relevant-results value",
  NODATA % "metric", ["rankeval/metrics/precision.py", "rankeval/metrics/recall.py", "rankeval/metrics/map.py", "rankeval/metrics/mrr.py", "rankeval/metrics/precision_max.py"],
  [("eval_per_query", "rankeval/metrics")], ["Precision, Recall, MAP, MRR, PrecisionMax: eval, eval_per_query"])
p("C20", "ERR, pFound and RBP equal their definitions",
  "With documents ranked by decreasing predicted score up to the cutoff: ERR is the cascade-model sum of (1/rank) times the probability that the user stops at that rank, with stop probability (2^label - 1)/2^maxlabel, maxlabel being the highest label of the query. pFound is the cascade-model probability that the user finds a relevant document with the same stop probabilities, the user leaving after each unsatisfying document with the configured abandonment probability. RBP is (1-p) times the sum over documents with label >= threshold of p^(rank-1).",
  ["inputs", "configurations"], "every query, cutoff, persistence, abandonment probability and threshold",
  NODATA % "metric", ["rankeval/metrics/err.py", "rankeval/metrics/pfound.py", "rankeval/metrics/rbp.py"], [("eval_per_query", "rankeval/metrics")], ["ERR, Pfound, RBP: eval, eval_per_query"])
p("C21", "Error and rank-correlation metrics equal their definitions",
  "The mean squared error over a dataset is the mean over all its rows of the squared difference of prediction and label, reported per query as each query's contribution to it; the root mean squared error of a query is the root of the mean of its squared differences (of the top-ranked documents only if a cutoff is set), and over a dataset their mean. Kendall's tau and Spearman's rho of a query are the standard rank-correlation coefficients (tau-b, and Pearson correlation of average ranks) between labels and predictions, and undefined values are left out of the dataset mean. None of these depends on the values of the query ids.",
  ["inputs"], "every dataset (any query ids), labels and predictions, with and without ties",
  NODATA % "metric", ["rankeval/metrics/mse.py", "rankeval/metrics/rmse.py", "rankeval/metrics/kendall_tau.py", "rankeval/metrics/spearman_rho.py"], [("eval, eval_per_query", "rankeval/metrics")], ["MSE, RMSE, Kendalltau, SpearmanRho"])
p("C22", "Rank metrics depend only on the ranking, and respect bounds and swaps",
  "For every rank metric: applying a strictly increasing transformation to the predictions, or jointly permuting the documents of a query, does not change the value when predictions are distinct; values stay within the metric's range, with the maximum for an ideal ranking where one is defined; swapping an adjacent pair so that the more relevant document comes first never lowers the value; and documents ranked below the cutoff can be reordered freely.",
  ["inputs", "configurations"], "every query, ranking, cutoff and metric configuration",
  NODATA % "metric", ["rankeval/metrics"], [("ranking by predicted score and cutoff handling", "rankeval/metrics")], ["eval_per_query of every rank metric"])
p("C23", "Dataset-level metric results are the per-query results, independent of history",
  "For every metric, evaluating a dataset returns one value per query, in query order, each equal to evaluating that query's labels and predictions alone (for the mean squared error divided by the number of rows), and the aggregate is the mean of the defined values (for the mean squared error, the sum). Results do not depend on the numeric values of the query ids, change only by reordering when queries are reordered, and are unaffected by previous evaluations on other datasets with the same metric object. Labels, predictions and dataset are left unmodified.",
  ["inputs", "histories"], "every metric configuration, dataset, order and numbering of queries, and every sequence of evaluations with one metric object",
  NODATA % "metric", ["rankeval/metrics/metric.py", "rankeval/metrics"], [("Metric.eval and query_iterator", "rankeval/metrics/metric.py")], ["eval of every metric"])
EFF = "rankeval/analysis/effectiveness.py"
p("C24", "Model performance, tree-wise performance and tree contributions are exact",
  "The performance table holds, for every dataset, model and metric, exactly the metric's value for that model's scores on that dataset. Tree-wise performance holds, for each reported number of trees up to the first that covers the whole model, the metric's value for the model made of its first that many trees (the full model when it has fewer). The average tree contribution is, tree by tree, the mean absolute contribution of that tree over the dataset's rows.",
  ["inputs", "programs", "configurations"], "every set of datasets, models (of different sizes, with base score and learning rate), metrics, step size and cache setting",
  NODATA % "effectiveness analysis", [EFF], [("model_performance, tree_wise_performance, tree_wise_average_contribution", EFF)], ["the returned DataArray, cell by cell"])
p("C25", "Query-wise, query-class and graded-relevance analyses report true distributions",
  "Query-wise performance gives at each reported threshold the fraction of queries whose metric value is below that threshold (at most it, for the last), on common thresholds reaching the largest value, so that the last is 1 where every query has a value. Query-class performance gives for each class the metric averaged over exactly the queries of that class (those with a defined value). Document graded relevance gives, for each label, the cumulative fraction of documents with that label whose score is below each reported threshold (at most it, for the last).",
  ["inputs", "configurations"], "every collection of datasets (different sizes and labels), models, metrics, query classes and bin counts",
  NODATA % "effectiveness analysis", [EFF], [("query_wise_performance, query_class_performance, document_graded_relevance", EFF)], ["the returned DataArrays"])
p("C26", "The rank confusion matrix counts ordered document pairs by label",
  "For every model, dataset and pair of distinct labels i and j the rank confusion matrix holds in entry (i, j) the number of pairs of documents of the same query, one with each label, in which the document with label i is scored below the one with label j; so the two mirrored entries add up to the number of pairs with those labels, and the diagonal, unless left out on request, counts the pairs of distinct documents with the same label. It is defined for any set of integer label values and for datasets with different numbers of rows, and is invariant under reordering of queries and of documents inside queries.",
  ["inputs"], "every collection of datasets, label sets (also non-contiguous) and predictions",
  NODATA % "effectiveness analysis", [EFF], [("rank_confusion_matrix", EFF)], ["the returned DataArray"])
p("C27", "Feature importance credits each split with the error reduction it causes",
  "Feature importance of a model on a dataset equals, feature by feature, the total over the split nodes using that feature, visited tree by tree with the residuals left by the preceding trees, of the decrease in the dataset's mean squared error obtained by predicting, for the documents reaching the node, the mean residual of each child instead of that of the node (for RMSE, the root of that total), and the reported count is the number of such split nodes crossed by documents. It is defined for every ensemble shape, including single-leaf trees and nodes reached by no document. It depends only on the values, not on the type or memory layout of the inputs, and leaves model and dataset unmodified.",
  ["programs", "inputs"], "every ensemble and dataset, with empty or one-sided splits, single-leaf trees, unused features, any array layout",
  NODATA % "feature analysis", ["rankeval/analysis/feature.py", "rankeval/analysis/_efficient_feature.pyx", "rankeval/analysis/_efficient_feature_impl.cpp"],
  [("feature_importance", "rankeval/analysis/feature.py"), ("C++ kernel", "rankeval/analysis/_efficient_feature_impl.cpp")], ["returned DataArrays of feature_importance"])
p("C28", "Topological analysis describes exactly the trees of the model",
  "Topological analysis reports, for every relative position (path of left/right moves from the root) in which some tree has a node, in what fraction of the trees it is present, with leaves counted on request and the root always. Per-tree height statistics and per-level fullness are those computed from the trees themselves. The result is the same whatever the numbering of the nodes in the model (levels up to the 62nd).",
  ["programs", "configurations"], "every ensemble (shapes from a single leaf to long chains, any node numbering) and every subset of trees",
  NODATA % "topological analysis", ["rankeval/analysis/topological.py", "rankeval/analysis/_efficient_topological.pyx"],
  [("topological_analysis", "rankeval/analysis/topological.py"), ("node counting kernel", "rankeval/analysis/_efficient_topological.pyx")], ["TopologicalAnalysisResult"])
ST = "rankeval/analysis/statistical.py"
p("C29", "Paired randomization tests give valid two-sided p-values",
  "For two paired vectors of per-query scores the randomization test returns the one-sided p-value of the better system being better and the two-sided p-value of a difference, equal up to sampling error to the fraction of all sign assignments whose mean difference is at least as extreme as the observed one; so they lie in [0,1], one-sided never exceeds two-sided, and identical systems give 1. Exchanging the systems leaves both unchanged. Statistical significance reports this for every metric and dataset of the two models compared.",
  ["inputs", "configurations"], "every pair of per-query score vectors (including identical, constant and discrete ones) and number of permutations",
  NODATA % "statistical analysis", [ST], [("statistical_significance, _randomization", ST)], ["returned p-values"])
p("C30", "The bias-variance decomposition adds up",
  "For mean squared error and for every metric whose ideal value is 1, the reported expected error equals bias plus variance, both non-negative, and equals their definition computed from the scores the trained models give. Each score comes from a model trained on a fold's training part that does not contain that query: in each repetition the queries are split in at most the asked number of folds, the user's training function is called once per fold, with exactly the remaining queries' data, and every row is scored exactly once. A constant prediction has variance zero and an oracle has bias zero.",
  ["inputs", "programs"], "every dataset, deterministic training function, number of folds and repetitions",
  NODATA % "statistical analysis", [ST], [("bias_variance, fold scoring", ST)], ["bias_variance result; arguments of the algorithm callback"])
p("C31", "An exported tree graph draws exactly the chosen tree",
  "Exporting a tree to Graphviz gives one graph node per node of the chosen tree down to the maximum depth, with deeper parts cut off with a marker, and an edge for each parent-child link, for any options chosen. Inner nodes show the split's feature (by id or the matching given name) and threshold, leaves the output, rounded to the precision asked, and, on request, the number of documents that reached the node. Asking with fewer feature names than the model needs, or for a tree the model does not have, is refused, and exporting never changes the model.",
  ["programs", "configurations"], "every tree shape, tree index, depth limit and combination of options",
  NODATA % "visualization", ["rankeval/visualization/topological.py"], [("export_graphviz", "rankeval/visualization/topological.py")], ["DOT text"])
p("C32", "Plots show the data they are given",
  "Every plotting function accepts the result of the analysis it belongs to, for any number of (distinct) datasets, models, metrics, trees, queries and features, and draws one panel, line or bar set per entry whose plotted values are those of the analysis result, labelled with its coordinates. The analysis result itself is not modified. The most important features are shown in decreasing order, up to the number asked.",
  ["inputs", "configurations"], "every analysis result shape and plotting option",
  NODATA % "visualization", ["rankeval/visualization/effectiveness.py", "rankeval/visualization/feature.py", "rankeval/visualization/topological.py"],
  [("plot_* functions", "rankeval/visualization")], ["matplotlib figures/axes: line data, bar heights, labels"])
p("C33", "Dataset fetching is cached, and a failed download leaves nothing behind",
  "Requesting a catalogued dataset downloads and unpacks it into the data folder and returns its train, validation and test sets (and models) as stored in the archive; asking again uses the local copy without downloading and gives the same content, forcing a download replaces the copy, and asking not to download missing data fails instead. If downloading or unpacking fails at any point the error is reported and a later request behaves as if that archive had never been downloaded. Nothing outside the dataset's own folder is touched.",
  ["fault_sequences", "histories", "inputs"], "every sequence of requests with and without force, and every point at which download or extraction can fail",
  "No test covers fetching: it needs the network.", ["rankeval/dataset/datasets_fetcher.py", "rankeval/dataset/dataset_container.py"],
  [("load_dataset and its cache folder", "rankeval/dataset/datasets_fetcher.py")], ["load_dataset, data folder"])
p("C34", "Scores and metric values survive subsetting, splitting, dumping and saving",
  "Whatever sequence of operations a dataset and a model go through - subsets of queries, train/validation/test and k-fold parts, dropping features the model does not use, dumping and reloading, saving and reloading the model, copying it, caching scores - every row keeps the score it has in the original data with the original model (or with its prefix, for a pruned copy). Every query likewise keeps its metric value (for the mean squared error, relative to the rows of the part), so that the means over the parts of a partition, weighted by their number of queries, recombine to the mean over the whole.",
  ["histories", "inputs", "programs"], "every sequence of such operations over every dataset, ensemble and metric (values with at most 9 digits, which dumping keeps)",
  "No test follows one object through several components; each guarantee may hold alone while a composition of them (row order, query order, feature ids, precision, caches) breaks.",
  [DS, SV, RT, "rankeval/metrics"], [("subset, split, kfold, subset_features, dump, load", DS), ("score, copy, save", RT), ("Metric.eval", "rankeval/metrics/metric.py")],
  ["score and eval on derived datasets and models"])
p("C35", "Every cell of an analysis depends only on its own dataset, model and metric",
  "An analysis over lists of datasets, models and metrics has one cell for each combination, labelled with those objects in the given order, and each cell equals what the same analysis, with the same bins, range, step and classes, gives for that dataset, model and metric alone. So results do not depend on the other objects analysed together, on the order of the lists, on earlier analyses or scoring of the same objects, on caching, or on running in a notebook. No analysis modifies the datasets or models it is given.",
  ["inputs", "histories", "configurations"], "every list of datasets, models and metrics, every sequence of analyses on shared objects, with and without caching",
  NODATA % "analysis", [EFF, "rankeval/analysis/feature.py", "rankeval/analysis/topological.py", ST, RT],
  [("effectiveness analyses", EFF), ("feature_importance", "rankeval/analysis/feature.py"), ("topological_analysis", "rankeval/analysis/topological.py"), ("score cache", RT)],
  ["returned DataArrays"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
            f.write(json.dumps(r) + "\n")
    print(len(P))
