#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

P("C01", "Grid cells: last write wins, writes are isolated, growth preserves",
  """Reading a cell of an in-memory data grid returns exactly the bytes most recently written to that attribute and row, whatever mix of
  attribute types and attribute groups the grid has; a write never changes any other cell; a cell never written reads as zero.
  Growing the grid keeps every existing cell, adds zeroed rows at the end, and makes the reported row count the sum of all growths.
  Once storage has been allocated, adding an attribute is refused instead of corrupting the layout.""".replace("; a cell never", ", and a cell never").replace("attribute groups the grid has; a write", "attribute groups the grid has, a write"),
  ["histories", "configurations"], "every history of add-attribute, grow, write and read over every layout of 8-byte and bit-packed attribute groups",
  "The tests write a handful of cells in one or two layouts; aliasing between bit positions, groups or rows, and loss on a second growth, only show for particular (layout, history) combinations.",
  ["base/dense.go", "base/fixed.go", "base/binary.go", "base/group.go", "base/spec.go"],
  [("DenseInstances.Extend/realiseAttributeGroups", "base/dense.go"), ("FixedAttributeGroup.set/get offsets", "base/fixed.go"), ("BinaryAttributeGroup bit addressing", "base/binary.go")],
  [("cells", "attribute x row -> last written bytes", "attribute group allocations"), ("rows", "row count", "DenseInstances.maxRow")],
  ["DenseInstances.Set", "DenseInstances.Get", "DenseInstances.Size", "DenseInstances.Extend"])

P("C02", "Attribute list, lookup and class-attribute bookkeeping are faithful",
  """A grid holding its own cells (DenseInstances) reports exactly the attributes added to it, once each; looking up an attribute that is equal to one of them succeeds and addresses that
  attribute's column, and looking up any other attribute is an error. The set of class attributes is exactly those marked and not since unmarked,
  and marking or unmarking an attribute the grid does not have is an error that changes nothing.
  Making an empty structural copy of a grid preserves the attribute list and class marks and shares no cell storage.""",
  ["histories", "configurations"], "every history of add, mark, unmark and lookup, over all attribute types and group layouts",
  "Tests mark one class attribute once; they never unmark, re-mark, use several, or look up equal-but-distinct attribute objects in several groups.",
  ["base/dense.go", "base/attributes.go", "base/util_attributes.go", "base/float.go", "base/categorical.go", "base/binary.go"],
  [("classAttrs map", "base/dense.go"), ("GetAttribute", "base/dense.go"), ("NewStructuralCopy", "base/dense.go"), ("NonClassAttributes / AttributeDifference", "base/util_attributes.go")],
  [("class", "set of attributes marked as class", "DenseInstances.classAttrs")],
  ["AllAttributes", "AllClassAttributes", "GetAttribute", "AddClassAttribute", "RemoveClassAttribute"])

P("C03", "Views are exact windows on their source",
  """A view over chosen rows and attributes reports the chosen number of rows and exactly the chosen attributes, and reading any of its cells gives the
  cell of the selected source row, also when rows repeat or are reordered, when views are stacked, and when the source is written afterwards.
  Class attributes of the source that are not part of the view are not reported, those that are, are. Marking or unmarking a class attribute on a view changes that mark of that view and nothing else.
  Looking up an attribute or reading a row outside the view fails instead of returning data from elsewhere.""",
  ["histories", "configurations", "inputs"], "every stack of row and attribute selections over every source, and every later write to the source",
  "The tests build one or two fixed views; wrong row mapping shows only for reordered, repeated or stacked selections.",
  ["base/view.go"], [("InstancesView.Get / resolveRow", "base/view.go"), ("NewInstancesViewFromVisible/FromRows/FromAttrs", "base/view.go")],
  [("sel", "sequence of source rows", "InstancesView.rows"), ("vattrs", "selected attributes", "InstancesView.attrs")], ["InstancesView.Get", "Size", "AllAttributes", "GetAttribute"])

P("C04", "Row iteration agrees with cell reads on every kind of grid",
  """Iterating over rows calls the visitor exactly once for each row of the grid in increasing row order, with the row's number and the same cell bytes that reading the
  cells directly gives, for in-memory grids, row/attribute views, lazily filtered grids and matrix-backed grids alike.
  Iteration stops at the first visitor call that returns false or an error, and a visitor's error is returned to the caller.""",
  ["inputs", "configurations", "histories"], "every grid kind, row selection, order of requested attributes and stopping point",
  "Tests iterate over dense grids in full; iteration over reordered or repeated rows, and over other grid kinds, is hardly reached.",
  ["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go"], [("MapOverRows", "base/dense.go"), ("InstancesView.MapOverRows", "base/view.go"), ("LazilyFilteredInstances.MapOverRows", "base/filtered.go"), ("Mat64Instances.MapOverRows", "base/mat.go")],
  [], ["MapOverRows"])

P("C05", "Sorting is an ordered permutation of the rows",
  """Sorting a grid on one or more attributes, ascending or descending, yields the same multiset of whole rows, ordered by the numeric value of the
  first attribute, then of the next, including for negative values. Eager sorting and the lazily sorted view give the same sequence of sort keys, and lazy sorting leaves the source
  untouched. Whole rows move together.""".replace(" Whole rows move together.", ""),
  ["inputs"], "every float column (negative, zero, tiny, huge, equal keys), direction and list of sort attributes",
  "The tests sort positive iris measurements; negative numbers, sign changes and multi-key ties are not sampled.",
  ["base/sort.go", "base/util_instances.go"], [("Sort (radix)", "base/sort.go"), ("LazySort", "base/sort.go"), ("sortXorOp", "base/sort.go")],
  [], ["Sort", "LazySort"])

P("C06", "Shuffling, splitting and sampling conserve rows",
  """Shuffling, eagerly or lazily, gives a permutation of the rows for every random seed, and the lazy form leaves the source untouched. A train/test split
  puts every row of the source in exactly one of the two parts, whatever the proportion. Sampling with replacement gives exactly the requested number of rows, each of
  them a row of the source.""",
  ["inputs", "histories"], "every grid or view, split proportion, sample size and random seed",
  "Tests check sizes on a few seeds at most; a lost or duplicated row appears only for some permutations.",
  ["base/util_instances.go", "base/view.go"], [("Shuffle / LazyShuffle", "base/util_instances.go"), ("InstancesTrainTestSplit", "base/util_instances.go"), ("SampleWithReplacement", "base/util_instances.go")],
  [], ["Shuffle", "LazyShuffle", "InstancesTrainTestSplit", "SampleWithReplacement"])

P("C07", "Decomposition by value and class distributions partition the rows",
  """Splitting a grid on an attribute puts each row in the part named after its value, every row in exactly one part, and drops only that attribute; splitting on a numeric
  threshold sends exactly the rows above the threshold to one side. Every class-distribution query counts each row once under its own class, and a
  grouped distribution counts it under its own group.""",
  ["inputs"], "every grid, attribute type and threshold",
  "Tests look at one dataset and one attribute; missing or double counted rows arise only for particular value patterns.",
  ["base/util_instances.go"], [("DecomposeOnAttributeValues / DecomposeOnNumericAttributeThreshold", "base/util_instances.go"), ("GetClassDistribution*", "base/util_instances.go")],
  [], ["DecomposeOnAttributeValues", "DecomposeOnNumericAttributeThreshold", "GetClassDistribution", "GetClassDistributionAfterSplit", "GetClassDistributionByCategoricalValue", "GetClassDistributionByBinaryFloatValue", "GetClassDistributionAfterThreshold"])

P("C08", "Equality and compatibility of grids mean what they say",
  """Two grids compare equal exactly when they have equal attributes, the same number of rows and equal cells in every position, and unequal attributes never compare equal.
  The strict compatibility test holds exactly when both grids have pairwise equal attributes in the same groups and order, and never crashes;
  the loose one gives the common attributes.""",
  ["inputs"], "every pair of grids over every layout",
  "Tests compare a grid with an equal copy; no test compares near-misses (one cell, one row, one attribute, one group differing).",
  ["base/util_instances.go", "base/util_attributes.go"], [("InstancesAreEqual", "base/util_instances.go"), ("CheckCompatible / CheckStrictlyCompatible", "base/util_instances.go")],
  [], ["InstancesAreEqual", "CheckCompatible", "CheckStrictlyCompatible", "Attribute.Equals"])

P("C09", "CSV reading and writing are inverse on representable data",
  """Parsing a CSV file gives one row per data line, in order, with a numeric column where the first line's value is a number and a categorical column otherwise, each cell holding the value on that line,
  and the last column as class. Writing a grid, filtered or not, as CSV and parsing it again gives the same attribute names and values (numbers to the precision the grid's attributes carry).
  Parsing with another data set as template uses the template's attributes, so that equal labels have equal encodings in both.""",
  ["inputs"], "every table of numbers and labels, with and without header, any number of rows and columns, labels needing quotes",
  "Tests parse fixed files; they do not cover label order, quoting, negative/exponent numbers or templates with labels in another order.",
  ["base/csv.go", "base/util_instances.go", "base/serialize.go"], [("ParseCSVToInstances", "base/csv.go"), ("ParseCSVToTemplatedInstances", "base/csv.go"), ("SerializeInstancesToCSV", "base/serialize.go")],
  [], ["ParseCSVToInstancesFromReader", "ParseCSVToTemplatedInstances", "SerializeInstancesToCSVStream"])

P("C10", "ARFF reading and writing are inverse on representable data",
  """Writing a grid as ARFF and parsing it again gives the same attribute names, types, declared labels in order, and cell values. Parsing a dense ARFF file gives the declared attributes in
  order and one row per data line with that line's values.""",
  ["inputs"], "every relation of numeric and nominal attributes and every data section",
  "One fixed file is parsed and written; label order, spacing, comments, quoting and negative numbers are not varied.",
  ["base/arff.go", "base/serialize.go"], [("ParseDenseARFFToInstances", "base/arff.go"), ("SerializeInstancesToDenseARFF", "base/arff.go")],
  [], ["ParseDenseARFFToInstances", "SerializeInstancesToDenseARFF"])

P("C11", "Native container round trip is lossless",
  """Serialising any grid to the native format, whole, filtered or as a view, and reading it back gives a grid with equal attributes (type, name, precision, labels and their encodings), the same class attributes and every cell bit
  for bit, rows in the same order, for any number of rows. Without its data, the structure alone comes back.""",
  ["inputs", "configurations"], "every grid, attribute mix, number of rows and view",
  "Tests round-trip one dataset of a few kilobytes; multi-block sizes, packed bits, views and several classes are not covered.",
  ["base/serialize_instances.go", "base/serialize.go", "base/serialize_attributes.go"], [("SerializeInstances / DeserializeInstances", "base/serialize_instances.go"), ("ReplaceDeserializedAttributesWith...", "base/serialize_attributes.go")],
  [], ["SerializeInstances", "DeserializeInstances"])

P("C12", "A damaged model or data file is reported, never misread",
  """Reading a truncated, bit-flipped or foreign file in the native container format either returns an error or yields the original content; it never crashes the process and
  never yields different data silently. The same holds for loading a saved model from such a file.""",
  ["fault_sequences", "crash_points"], "every truncation point and single-byte corruption of a container, and any garbage input",
  "Tests only read files just written in full.",
  ["base/serialize.go", "base/serialize_instances.go", "base/serialize_attributes.go"], [("DeserializeInstances", "base/serialize_instances.go"), ("ReadSerializedClassifierStub / FunctionalTarReader / gzip CRC", "base/serialize.go")],
  [], ["DeserializeInstances", "ReadSerializedClassifierStub"])

P("C13", "Attribute encodings are stable and reversible",
  """Every label of a categorical attribute has one code, codes are handed out in order of first appearance and never change as labels are added, and decoding a code gives the label back.
  Numeric and binary attributes read back what they print, up to the declared precision. An attribute saved as JSON and restored equals the original and encodes labels the same way.""",
  ["histories", "inputs"], "every sequence of encode/decode calls on any labels or numbers, with a save/restore at any point (labels are valid text)",
  "Tests encode a few labels once and never interleave save/restore with new labels.",
  ["base/categorical.go", "base/float.go", "base/binary.go", "base/serialize_attributes.go"], [("CategoricalAttribute.GetSysValFromString / GetStringFromSysVal", "base/categorical.go"), ("MarshalJSON/UnmarshalJSON", "base/categorical.go"), ("FloatAttribute, BinaryAttribute", "base/float.go")],
  [("codes", "label -> code", "CategoricalAttribute.values")], ["GetSysValFromString", "GetStringFromSysVal", "MarshalAttribute", "UnmarshalJSON"])

P("C14", "Discretisation assigns each value to the one interval containing it",
  """Equal-width binning with b bins maps every value between the least and the greatest training value to the bin of that width containing it. The greatest value, and anything above it, goes to
  a last bin of its own, anything below the least value to the first, and every code has a label of its own.
  ChiMerge maps every value to the learned interval containing it (the first interval for smaller values), its intervals partition the training values, and merging (which only joins least different neighbours) never stops while an adjacent pair is below the significance threshold
  or more than the maximum number of intervals remain, unless the minimum number is reached, which it never goes below. Neighbours that differ significantly are only joined while there are more intervals than the maximum.""",
  ["inputs"], "every numeric column, bin count, threshold and class assignment",
  "Tests discretise iris with fixed settings; edges, negative values, constant columns and other bin counts are not sampled.",
  ["filters/binning.go", "filters/chimerge.go", "filters/chimerge_funcs.go", "filters/disc.go"], [("BinningFilter.Train/Transform", "filters/binning.go"), ("chiMerge", "filters/chimerge_funcs.go"), ("ChiMergeFilter.Transform", "filters/chimerge.go")],
  [], ["Filter.Train", "Filter.Transform", "NewLazilyFilteredInstances"])

P("C15", "Filtered grids transform exactly the chosen attributes",
  """A lazily filtered grid shows each chosen attribute's cells as the filter's transform of the source cell and every other attribute's cells unchanged, with the same number and order of rows and the same class attributes (replaced by their transformed counterpart).
  One-hot conversion sets exactly the indicator of the cell's label, binary conversion of a number is whether it is non-zero, and
  float conversion of an indicator is 0 or 1.""".replace("One-hot", "One-hot"),
  ["inputs", "configurations"], "every grid, subset of filtered attributes and filter kind",
  "Tests filter all attributes of one dataset; untouched attributes, several labels, and iteration versus cell reads are not compared.",
  ["base/filtered.go", "filters/binary.go", "filters/float.go"], [("LazilyFilteredInstances.Get/transformNewToOldAttribute", "base/filtered.go"), ("BinaryConvertFilter", "filters/binary.go"), ("FloatConvertFilter", "filters/float.go")],
  [], ["NewLazilyFilteredInstances"])

P("C16", "k-nearest-neighbour prediction is the vote of the k nearest rows",
  """Each prediction of the k-nearest-neighbour classifier is a class with the most votes among a set of k training rows none of which is farther than any row left out, with distance-weighted votes when weighting is requested.
  This holds for every distance measure, search method and the optimised path. Asking for more neighbours than there are training rows is an error.""",
  ["inputs", "configurations"], "every training set, query row, k, distance function, algorithm, weighting and optimisation setting",
  "Tests check a few well separated points; distance ties, duplicates, k equal to the training size and agreement between search methods are not compared.",
  ["knn/knn.go", "knn/knn_opt_euclidean.go", "kdtree/kdtree.go", "utilities/utilities.go"], [("KNNClassifier.Predict / vote / weightedVote", "knn/knn.go"), ("optimisedEuclideanPredict", "knn/knn_opt_euclidean.go")],
  [], ["KNNClassifier.Predict"])

P("C17", "kd-tree search returns the true k nearest points",
  """Searching a kd-tree returns k distinct stored points, with their true distances, such that no other stored point is nearer than any of them, for every metric offered.""",
  ["inputs"], "every set of points (duplicates, ties, collinear), target, k and metric",
  "Tests search one small fixed tree; wrong pruning shows only for particular geometry.",
  ["kdtree/kdtree.go", "kdtree/heap.go"], [("Tree.Build/buildHandle", "kdtree/kdtree.go"), ("Tree.Search / pruning", "kdtree/kdtree.go"), ("heap", "kdtree/heap.go")],
  [("heap", "current k best", "kdtree/heap.go")], ["Tree.Build", "Tree.Search"])

P("C18", "k-nearest-neighbour regression averages the k nearest targets",
  """The prediction of the k-nearest-neighbour regressor for a vector is the mean of the target values of k training rows none of which is farther from the vector than any row left out.""",
  ["inputs"], "every training matrix, target list, query, k and metric", "One fixed example is tested; k>1, ties and negative targets are not.",
  ["knn/knn.go", "utilities/utilities.go"], [("KNNRegressor.Predict", "knn/knn.go"), ("SortIntMap", "utilities/utilities.go")], [], ["KNNRegressor.Fit", "KNNRegressor.Predict"])

P("C19", "Induced decision trees route rows consistently and stop correctly",
  """In a tree grown by ID3 or by the random-tree learner, the class counts at each node are exactly those of the training rows routed to it, the children of a node split its rows without loss by the value of one attribute not
  used above it, and each node's predicted class is a most frequent one. Growing stops only where the rows are of one class or no attribute considered divides them. A row is predicted by following the branch of its value at each node
  (a value without a branch may follow any), and the class probabilities of a row are the shares at its leaf, most likely first.""",
  ["inputs", "configurations"], "every training set of categorical, binary and numeric attributes, every rule, and every row to classify",
  "Tests look at accuracy on one or two datasets or print the tree.",
  ["trees/id3.go", "trees/random.go", "trees/entropy.go"], [("InferID3Tree", "trees/id3.go"), ("DecisionTreeNode.Predict", "trees/id3.go"), ("RandomTreeRuleGenerator", "trees/random.go")],
  [("tree", "node -> split, class distribution, children", "DecisionTreeNode")], ["ID3DecisionTree.Fit", "ID3DecisionTree.Predict", "ID3DecisionTree.PredictProba", "RandomTree.Fit"])

P("C20", "Pruning never makes the tree worse on the pruning data",
  """Pruning a decision tree against a validation set leaves a tree obtained from the old one by turning some inner nodes into leaves, and the number of validation rows classified correctly does not go down.
  When every validation row has a branch for its values, each inner node left that such rows reach classifies more of them correctly than it would as a leaf.""",
  ["inputs"], "every tree and validation set", "One dataset is pruned and only the accuracy printed.",
  ["trees/id3.go"], [("DecisionTreeNode.Prune / computeAccuracy", "trees/id3.go")], [], ["DecisionTreeNode.Prune", "RandomTree.Prune"])

P("C21", "Each split rule picks an attribute with the best score",
  """Given a data set, the information-gain, gain-ratio and Gini rules return an attribute whose score is best among the attributes offered, where the score is the textbook information gain, gain ratio or Gini index of the class distribution
  after the split, and a numeric attribute is split at a threshold of least entropy between two of its values. The random-tree rule does so among as many attributes as requested, or all when there are fewer, drawn anew each time from all of them.
  Only non-class attributes that can be split are chosen, both when a rule is asked directly and at every node of a grown tree.""",
  ["inputs"], "every training set with categorical, binary and numeric attributes", "Tests check the choice on a four-attribute toy dataset only.",
  ["trees/entropy.go", "trees/gr.go", "trees/gini.go", "trees/random.go"], [("InformationGainRuleGenerator", "trees/entropy.go"), ("InformationGainRatioRuleGenerator", "trees/gr.go"), ("GiniCoefficientRuleGenerator", "trees/gini.go"), ("RandomTreeRuleGenerator", "trees/random.go")],
  [], ["GenerateSplitRule", "GetSplitRuleFromSelection"])

P("C22", "CART classification trees split optimally and predict their leaf's majority",
  """Each node of a classification tree splits its rows at a threshold with the lowest weighted impurity over all features and thresholds, only when that improves on the node's own impurity, and never beyond the depth limit.
  A row is predicted as a most frequent training class among the rows that reach its leaf, also when the tree has a single leaf and when the columns of the queried grid come in another order.""",
  ["inputs", "configurations"], "every numeric training set, label assignment, criterion and depth limit", "Tests compare a few predictions on a fixed toy set.",
  ["trees/cart_classifier.go", "trees/cart_utils.go"], [("buildTree / bestSplit", "trees/cart_classifier.go"), ("predictSingle", "trees/cart_classifier.go")], [], ["CARTDecisionTreeClassifier.Fit", "Predict", "Evaluate"])

P("C23", "CART regression trees split optimally and predict their leaf's mean",
  """Each node of a regression tree splits its rows at a threshold with the lowest weighted error over all features and thresholds, only when that improves on the node's own error, and never beyond the depth limit.
  A row is predicted as the mean (of the criterion in use) of the training targets that reach its leaf, also when the tree has a single leaf and when the columns of the queried grid come in another order.""",
  ["inputs", "configurations"], "every numeric training set, targets, criterion and depth limit", "Tests compare a few predictions on a fixed toy set.",
  ["trees/cart_regressor.go", "trees/cart_utils.go"], [("regressorBestSplit / buildTree", "trees/cart_regressor.go")], [], ["CARTDecisionTreeRegressor.Fit", "Predict"])

P("C24", "Isolation trees isolate: each row follows the splits to its leaf",
  """Each isolation tree is grown from a subsample of the requested size (two or more), its leaf sizes add up to it, and no branch is deeper than the limit. The score of a row is
  2 to the power of minus its mean path length over the trees (with the standard correction for unsplit leaves) divided by the normalisation for the subsample size, whatever the order of the columns.""",
  ["inputs", "histories"], "every data set, forest configuration and random seed", "Tests check an outlier's rank in a tiny data set on one seed.",
  ["trees/isolation.go"], [("buildTree / getRandomData", "trees/isolation.go"), ("evaluateInstance / pathLength / cFactor", "trees/isolation.go")], [], ["IsolationForest.Fit", "IsolationForest.Predict"])

P("C25", "Bagging trains every model once and predicts the majority, on any schedule",
  """Fitting a bagged model trains each member exactly once on its own bootstrap sample: as many rows as the training data have, all from them, with the chosen number of features (all for 0) and the class attribute.
  Predicting asks every member exactly once, about its own features, and gives each row a class with the most member votes; a member's error is reported.
  Both finish, without data races, under every scheduling of the workers.""",
  ["schedules", "inputs", "configurations"], "every interleaving of workers, number of members, sample and feature settings",
  "Tests run the default schedule on one dataset and check accuracy.",
  ["meta/bagging.go"], [("BaggedModel.Fit worker pool", "meta/bagging.go"), ("BaggedModel.Predict vote channel", "meta/bagging.go"), ("generateTrainingInstances", "meta/bagging.go")],
  [("votes", "row -> class -> count", "BaggedModel.Predict"), ("models", "members fitted", "BaggedModel.Models")], ["BaggedModel.Fit", "BaggedModel.Predict"])

P("C26", "A random forest predicts the majority of its trees",
  """A random forest has as many trees as configured, each restricted to the configured number of features, and predicts for each row a class with the most votes among its trees' own predictions.""",
  ["inputs", "histories", "schedules"], "every training set, forest size, feature count and seed", "Tests print the accuracy on one dataset.",
  ["ensemble/randomforest.go", "meta/bagging.go", "trees/random.go"], [("RandomForest.Fit/Predict", "ensemble/randomforest.go")], [], ["RandomForest.Fit", "RandomForest.Predict"])

P("C27", "One-vs-all trains one model per class and predicts the highest score",
  """For every class label, one-vs-all training fits one member on all training rows with a binary target that is one exactly on that class's rows. The prediction for a row is the class whose
  member gives the row its highest score.""",
  ["inputs", "configurations"], "every set of labels, class frequencies and member scores", "Tests check one dataset's accuracy with a real SVM.",
  ["meta/one_v_all.go"], [("OneVsAllModel.Fit / generateAttributes", "meta/one_v_all.go"), ("oneVsAllFilter.Transform", "meta/one_v_all.go"), ("OneVsAllModel.Predict", "meta/one_v_all.go")], [], ["OneVsAllModel.Fit", "OneVsAllModel.Predict"])

P("C28", "A saved and reloaded model predicts exactly as before",
  """Saving a trained model and loading it into a model of the same kind, whether fresh, trained on something else or (where the file holds them) with other settings, gives, for every data set accepted by the original, exactly the original's predictions.
  Saving does not change the model's own later predictions. (Rows on which the model itself chooses
  arbitrarily, such as tied votes, are excepted.)""",
  ["inputs", "histories", "configurations"], "every classifier kind with persistence, every training set and hyper-parameters", "A few kinds are round-tripped once on iris.",
  ["base/serialize.go", "knn/knn.go", "trees/id3.go", "trees/random.go", "naive/bernoulli_nb.go", "linear_models/linearsvc.go", "meta/bagging.go", "meta/one_v_all.go", "ensemble/randomforest.go", "ensemble/multisvc.go"],
  [("Save/Load, SaveWithPrefix/LoadWithPrefix", "base/serialize.go and each classifier")], [], ["Classifier.Save", "Classifier.Load", "Classifier.Predict"])

P("C29", "Confusion matrices count every row and the metrics follow from them",
  """The confusion matrix of a reference and a prediction has, for every pair of classes, the number of rows with that reference and that prediction, so its total is the number of rows.
  True/false positives/negatives, accuracy, precision, recall, F1 and the micro/macro averages are the textbook functions of those counts; a score that would divide by nothing is not a number.""",
  ["inputs"], "every pair of label columns and every class", "Tests check one 3-class matrix.",
  ["evaluation/confusion.go"], [("GetConfusionMatrix", "evaluation/confusion.go"), ("GetTruePositives etc.", "evaluation/confusion.go")], [], ["GetConfusionMatrix", "GetPrecision", "GetRecall", "GetF1Score", "GetAccuracy", "GetMicroPrecision", "GetMacroPrecision"])

P("C30", "Cross-validation tests every row exactly once on a model not trained on it",
  """k-fold cross-validation runs k rounds; in each the classifier is fitted on the rows outside the fold and evaluated on the fold; the folds partition the rows, and every returned confusion matrix is that of the fold's own predictions.""".replace("runs k rounds; in each", "runs k rounds, and in each").replace("on the fold; the folds", "on the fold. The folds"),
  ["inputs", "histories"], "every data set, fold count and seed", "Tests check only the size of the result or an average accuracy.",
  ["evaluation/cross_fold.go"], [("GenerateCrossFoldValidationConfusionMatrices", "evaluation/cross_fold.go"), ("GetCrossValidatedMetric", "evaluation/cross_fold.go")], [], ["GenerateCrossFoldValidationConfusionMatrices", "GetCrossValidatedMetric"])

P("C31", "DBSCAN clusters are density-connected",
  """DBSCAN puts two core points (at least the minimum number of points within eps) in the same cluster exactly when a chain of core points, each within eps of the next, links them. Every
  other point within eps of a core point is in the cluster of one such core point, no point is in two clusters, and a point that is neither core nor near a core point is in none. Only clusters left with fewer points than the minimum count (their border being shared with others) are dropped.""",
  ["inputs"], "every set of points, eps, minimum count and metric", "Two fixed data sets are compared against a reference labelling.",
  ["clustering/dbscan.go", "clustering/clustering.go"], [("DBSCAN / findNeighbours / expand", "clustering/dbscan.go")], [("labels", "point -> cluster or noise", "dbscan.go")], ["DBSCAN"])

P("C32", "Clusterings cover the rows, and mixture models assign the most likely component",
  """Predicting with a fitted Gaussian mixture gives each row exactly one of the requested components, one under whose Gaussian the row is most likely, and the result does not depend on the other rows predicted with it. The means stay within the range of the data, and a mixture of one component has the mean and the covariance of the data.""",
  ["inputs", "histories"], "every data set and number of components", "One fixed dataset is fitted.",
  ["clustering/em.go"], [("ExpectationMaximization.Predict / estimateLogProb", "clustering/em.go")], [], ["ExpectationMaximization.Fit", "Predict"])

P("C33", "Cluster maps invert and compare as set partitions",
  """Inverting a cluster map gives each point its cluster and fails on a point in two clusters; two cluster maps compare equal exactly when they contain the same clusters as sets, whatever the cluster numbers and order.""".replace("two clusters; two", "two clusters. Two"),
  ["inputs"], "every pair of cluster maps", "One or two fixed examples are tested.",
  ["clustering/clustering.go"], [("ClusterMap.Invert", "clustering/clustering.go"), ("ClusterMap.Equals", "clustering/clustering.go")], [], ["ClusterMap.Invert", "ClusterMap.Equals"])

P("C34", "Distance and kernel functions compute their definitions",
  """Euclidean, Manhattan, Chebyshev, Canberra and cosine distances, inner products, and polynomial and RBF kernels return the value of their textbook definition for every pair of equally sized vectors, row or column shaped. The distances are symmetric, never negative, and zero (up to rounding) between a vector and itself (vectors are non-zero for the cosine).""",
  ["inputs"], "every pair of vectors", "One or two example pairs per function.",
  ["metrics/pairwise/euclidean.go", "metrics/pairwise/manhattan.go", "metrics/pairwise/chebyshev.go", "metrics/pairwise/cranberra.go", "metrics/pairwise/cosine.go", "metrics/pairwise/poly_kernel.go", "metrics/pairwise/rbf_kernel.go"],
  [("Distance / InnerProduct", "metrics/pairwise")], [], ["Distance", "InnerProduct"])

P("C35", "The network simulator computes its weighted sums, errors and updates",
  """Activating a network for k rounds gives the node values obtained by repeatedly applying each node's function to its bias plus the weighted sum of its predecessors. The error step gives each node its own error plus that passed back along its outgoing weights, scaled by the derivative, and the
  update step adds learning rate times error times input to each existing weight, never creating a connection.""",
  ["inputs", "histories", "configurations"], "every weight matrix, bias vector, activation vector, number of rounds and update history", "Two tiny networks are tested.",
  ["neural/network.go", "neural/funcs.go"], [("Network.Activate", "neural/network.go"), ("Network.Error", "neural/network.go"), ("Network.UpdateWeights / UpdateBias", "neural/network.go")],
  [("w", "weights", "Network.weights"), ("b", "biases", "Network.biases")], ["Activate", "Error", "UpdateWeights", "UpdateBias", "GetWeight"])

P("C36", "Multi-layer networks are wired by layers, learn by descent and predict per row",
  """A multi-layer network built for a data set has one input per feature (as numbers), one output per class value (a single one for two-valued and numeric classes) and the requested hidden layers, with every node connected to all nodes of the next layer and to nothing else, also after training.
  Prediction yields for each row the class of its highest output (by the sign for a single output), or the outputs themselves for numeric classes, whatever was fitted before and whichever equal attributes the query uses.
  Training takes the rows in order, pass after pass, up to the maximum number of passes, stopping after one whose error is below the convergence value; on each row every weight and bias moves by the learning rate times the slope at which half the row's squared error falls.""",
  ["configurations", "inputs"], "every layer configuration and data set", "Three fixed networks are trained.",
  ["neural/layered.go", "neural/network.go"], [("MultiLayerNet.Fit", "neural/layered.go"), ("MultiLayerNet.Predict", "neural/layered.go")], [], ["MultiLayerNet.Fit", "MultiLayerNet.Predict"])

P("C37", "The averaged perceptron labels each row by its own weighted sum",
  """The averaged perceptron's prediction for a row depends only on that row and the trained model, and is one of the two training labels: the second when the weighted sum of the row's values, each attribute keeping its trained weight wherever it stands in the grid, reaches the threshold, the first otherwise.
  One prediction is given per input row.""",
  ["inputs", "histories"], "every training set and query set", "One dataset is tested for a non-nil answer.",
  ["perceptron/average.go"], [("AveragePerceptron.Predict / score", "perceptron/average.go")], [], ["AveragePerceptron.Fit", "AveragePerceptron.Predict"])

P("C38", "Prediction is per row, complete, ordered and has no side effects",
  """For every classifier, predicting yields exactly one label per input row, in input order, in a grid whose only attribute is the class attribute, and every label is one of the training labels. A row's prediction does not depend on the other rows in the batch or their order, nor on the order of the columns.
  Neither fitting nor predicting changes the data it is given.""",
  ["inputs", "histories", "configurations"], "every classifier, training set and batch of rows", "Tests compute accuracy over a whole batch only.",
  ["base/util_instances.go", "base/classifier.go", "knn/knn.go", "trees/id3.go", "naive/bernoulli_nb.go", "linear_models/logistic.go", "linear_models/linearsvc.go", "meta/bagging.go", "ensemble/randomforest.go"],
  [("GeneratePredictionVector", "base/util_instances.go"), ("Predict", "each classifier")], [], ["Classifier.Fit", "Classifier.Predict"])

P("C39", "Matrix and data-frame conversions keep values, order and types",
  """Turning numeric attributes of a grid or view into matrices, one row or all rows at a time, gives every value exactly, columns in the order asked for and rows in the grid's order; asking for an attribute which isn't numeric is an error.
  Turning a matrix into a grid gives one numeric attribute per column, numbered in order, with every value. Converting a data frame gives one attribute per series (categorical for strings, numeric for floats and integers), the chosen class attribute,
  and one row per frame row with exactly the frame's value in each cell: a missing number is NaN, a missing string the empty label. The frame stays as it was, and the grid keeps its values whatever becomes of the frame.""",
  ["inputs", "histories"], "every grid, matrix and data frame, and any sequence of changes and conversions", "There is one test of a matrix conversion; none of data frames.",
  ["base/conversion.go", "base/mat.go", "base/dataframe_go.go"], [("ConvertRowToMat64 / ConvertAllRowsToMat64", "base/conversion.go"), ("InstancesFromMat64", "base/mat.go"), ("ConvertDataFrameToInstances", "base/dataframe_go.go")], [], ["InstancesFromMat64", "ConvertAllRowsToMat64", "ConvertDataFrameToInstances"])

P("C40", "Linear classifiers are consistent with their own decision function",
  """Logistic regression, linear SVC and multi-class SVC give a row whose features repeat a training row that row's class, whenever the classes can be told apart by weights (through the origin) that cost less than a single mistake; this holds whatever the signs of the features and the order of the columns.
  For rows with one feature each, the class whose weighted rows prevail is predicted (for solvers of the primal problem), with the class weights given or chosen automatically. With two classes the answers lie on either side of a plane through the origin. The same row gets the same answer in every batch.""",
  ["inputs", "configurations"], "every separable integer training set, feature sign and order", "Tests run one dataset with positive features.",
  ["linear_models/liblinear.go", "linear_models/util.go", "linear_models/logistic.go", "linear_models/linearsvc.go", "ensemble/multisvc.go"], [("convertVector / convertProblem", "linear_models/liblinear.go"), ("Predict", "linear_models/liblinear.go")], [], ["LogisticRegression.Predict", "LinearSVC.Predict", "MultiLinearSVC.Predict"])

P("C41", "Linear regression solves the least-squares problem",
  """The coefficients fitted by linear regression make the residuals orthogonal to every numeric feature and sum to zero, so that data lying exactly on a plane are reproduced. The prediction for a row is the intercept plus the coefficient-weighted sum of that row's own features, wherever they stand in the grid; attributes which are not numbers play no part.
  Too few rows, a number of class attributes other than one, and predicting before fitting are errors, and leave what was fitted before as it was.""",
  ["inputs"], "every full-rank integer training set and query", "One dataset is fitted and the predictions printed.",
  ["linear_models/linear_regression.go"], [("LinearRegression.Fit (QR)", "linear_models/linear_regression.go"), ("LinearRegression.Predict", "linear_models/linear_regression.go")], [], ["LinearRegression.Fit", "LinearRegression.Predict"])

P("C42", "Bernoulli naive Bayes predicts the class of highest posterior",
  """With n of N training rows in a class, k of them having a feature, each prediction is a class for which n/N times the weights of the row's features is highest: (k+1)/(n+1) for a feature the row has, and for one it lacks the complement of that, or 1/(n+1) when the complement is zero. Any value but zero counts as having the feature.
  Training data with features that are not binary, or without exactly one class attribute, are refused with an error and leave the model as it was.""",
  ["inputs"], "every binary training set and query", "Tests use one three-row toy set.",
  ["naive/bernoulli_nb.go"], [("BernoulliNBClassifier.Fit", "naive/bernoulli_nb.go"), ("PredictOne", "naive/bernoulli_nb.go")], [], ["BernoulliNBClassifier.Fit", "BernoulliNBClassifier.PredictOne", "Predict"])

P("C43", "PCA projects onto the leading principal directions",
  """PCA returns as many perpendicular directions of length 1 as requested (all there are for 0 or too many), by decreasing variance, in which the scatter of the training rows only stretches, and what they leave over varies nowhere more than along the last of them. The coordinates of any row, in training or not, are its distances from the training mean along those directions.
  Neither fitting nor transforming changes the matrix given.""",
  ["inputs"], "every data matrix", "One fixed matrix is compared.",
  ["pca/pca.go"], [("PCA.Fit / Transform", "pca/pca.go")], [], ["PCA.FitTransform"])

P("C44", "Malformed text files are reported, never misread",
  """Reading a CSV or ARFF file gives the data set the file says or an error, and never crashes: rows with fields missing or left over, values which are no numbers, undeclared labels, attribute types nobody knows, unclosed quotes, empty and missing files, and sources that fail half-way are errors. Lines of any length are read.
  A template stays usable, with the codes it had, whatever becomes of the file read with it.""",
  ["inputs", "faults"], "every text and every point at which a source may fail", "Only well-formed files are parsed in the tests.",
  ["base/csv.go", "base/arff.go", "base/filewrapper.go"], [("ParseCSVToInstances and variants", "base/csv.go"), ("ParseDenseARFFToInstances", "base/arff.go")], [], ["ParseCSVToInstances", "ParseDenseARFFToInstances"])

P("C45", "A write that fails is reported",
  """Writing a data set to a stream (CSV, ARFF, binary), and writing a data set or a model to a file, says success only when all of it has been written: if the place takes only part of it, wherever it stops, or does not exist, the answer is an error and not a panic. A stream with enough room succeeds and gets the same bytes, and what a failing stream got is the beginning of them. A model whose saving succeeded can be loaded and predicts the same.
  Saving leaves no other file behind.""",
  ["faults", "inputs"], "every point at which the place written to may stop taking data", "The tests only write to places with room.",
  ["base/serialize.go", "base/serialize_instances.go", "base/arff.go", "linear_models/linearsvc.go", "trees/random.go", "ensemble/randomforest.go", "ensemble/multisvc.go", "meta/bagging.go", "meta/one_v_all.go", "knn/knn.go", "naive/bernoulli_nb.go"],
  [("SerializeInstancesToCSVStream", "base/serialize_instances.go"), ("ClassifierSerializer", "base/serialize.go")], [], ["Save", "SerializeInstancesToCSV", "SerializeInstancesToDenseARFF", "SerializeInstancesToFile"])

P("C46", "A model file gives back under each key what was written there",
  """Whatever is written into a model file under a key (bytes, numbers, JSON, metadata, attributes, lists of attributes, data sets with or without their rows), in any order and under any keys, is read back under that key exactly, in any order, any number of times and by any number of readers, and other keys do not matter, however alike. Of two values written under one key the most recent counts.
  A key under which nothing was written is an error, and so is reading bytes as something they are not. The metadata of the file is what it was created with. A restored attribute is matched with the equal attribute of a data set, and with none if there is none.""",
  ["histories", "inputs"], "every sequence of keys and values written, and every sequence of keys read", "The tests save whole models and load them.",
  ["base/serialize.go", "base/serialize_instances.go", "base/serialize_attributes.go"], [("ClassifierSerializer", "base/serialize.go"), ("ClassifierDeserializer / FunctionalTarReader.GetNamedFile", "base/serialize.go"), ("ReplaceDeserializedAttributeWithVersionFromInstances", "base/serialize_attributes.go")], [],
  ["ClassifierSerializer.WriteBytesForKey", "ClassifierDeserializer.GetBytesForKey", "CreateSerializedClassifierStub", "ReadSerializedClassifierStub"])

P("C47", "Data sets may be used by several goroutines at once",
  """Any number of goroutines may read a data set nobody writes to, whole, as a view, filtered or made from a matrix, in every way there is (cells, rows, attributes, classes, copies, windows, filters, files), and each sees what one alone would see.
  Goroutines may at the same time add attributes and groups to a dense data set, look attributes and groups up, list them, mark classes and add rows: every answer is as if these operations had happened one after the other, each at some moment between its call and its return, and afterwards the data set is what that order makes of it, with a column of its own for every attribute added.""",
  ["schedules"], "every interleaving of every set of programs", "No test uses a data set from two goroutines.",
  ["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go", "base/fixed.go", "base/binary.go"],
  [("DenseInstances.lock", "base/dense.go"), ("LazilyFilteredInstances.Get", "base/filtered.go"), ("InstancesView.Get", "base/view.go")],
  [("groups", "attribute groups", "DenseInstances.ags"), ("attrs", "attributes", "AttributeGroup.Attributes"), ("fixed", "rows have been added", "DenseInstances.fixed")],
  ["DenseInstances.AddAttribute", "AllAttributes", "AddClassAttribute", "Get", "MapOverRows"])

P("C48", "A printed data set is a true summary of it",
  """The printed form (String) of a dense data set, a view, a filtered set or a matrix gives its size where it gives one, its attributes in order, each with its name, type and labels and with a star exactly at the class attributes, and its first rows in order (at least five, or all there are), every cell as its label, bit or decimal value at the column's precision; where it says how many rows it leaves out, that is how many there are beyond the ones shown.
  RowString(r) gives the values of row r in the same way, in order, separated by single blanks (of a matrix it gives no values; it is documented as unfinished).""",
  ["inputs"], "every data set of every kind", "Tests look at a few lines of the iris data.",
  ["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go", "base/fixed.go", "base/bag.go"],
  [("DenseInstances.String", "base/dense.go"), ("InstancesView.String", "base/view.go"), ("LazilyFilteredInstances.String", "base/filtered.go"), ("Mat64Instances.String", "base/mat.go")],
  [("g", "the data set", "FixedDataGrid")],
  ["String", "RowString"])

P("C49", "A printed decision tree decides as the tree does",
  """The printed form of an ID3 tree, a random tree, a tree node, a forest, a bagged model of trees, or a CART tree can be followed by hand: every line is a test, the head of a branch or an answer, and its indentation says which test it belongs to. Whoever follows it for a row from the first line takes, at a test, the branch headed by the row's value (for numbers: an ID3 test "<= t" sends values up to t to 0 and others to 1, a CART test "< t" sends values below t to True) and arrives at the answer Predict gives that row: for a regression tree to the three decimals printed, for several trees at a class that most of them arrive at, and for a value no branch is headed by at an answer below any of them.
  This holds for any training data, after pruning, and after saving and loading, when the same is printed again (numbers are printed to a fixed number of decimals; thresholds are only compared where they have no more).""",
  ["inputs"], "every training set, every tree and every row", "Tests print one tree and compare it with a recording, or not at all.",
  ["trees/id3.go", "trees/random.go", "trees/cart_classifier.go", "trees/cart_regressor.go", "meta/bagging.go", "ensemble/randomforest.go"],
  [("DecisionTreeNode.String", "trees/id3.go"), ("CARTDecisionTreeClassifier.String", "trees/cart_classifier.go"), ("CARTDecisionTreeRegressor.String", "trees/cart_regressor.go"), ("BaggedModel.String", "meta/bagging.go")],
  [("texts", "the printed trees", "DecisionTreeNode, classifierNode, regressorNode")],
  ["String", "Predict", "Prune", "Save", "Load"])

P("C50", "Printed confusion matrices and summaries state the counts and measures",
  """ShowConfusionMatrix prints one line for every reference class and one column for every class that was predicted, and in each cell how often the class of its line was predicted as the class of its column, so that the printed counts add up to the rows evaluated.
  GetSummary prints every reference class once, with its true positives, false positives, true negatives, and its precision, recall and F1 score to four decimals, and the overall accuracy, as they follow from the matrix.""",
  ["inputs"], "every confusion matrix, also with classes that were only predicted", "Tests look for the titles in what is printed.",
  ["evaluation/confusion.go"],
  [("ShowConfusionMatrix", "evaluation/confusion.go"), ("GetSummary", "evaluation/confusion.go")],
  [("m", "the confusion matrix", "evaluation.ConfusionMatrix")],
  ["evaluation.ShowConfusionMatrix", "evaluation.GetSummary"])

P("C51", "Fitted models may be asked, saved and fitted by several goroutines at once",
  """A fitted model (a classifier, regression, tree, forest, bagged or one-against-all model, network, principal components, kd-tree or trained filter) asked by several goroutines at the same time about the same or different data sets gives each the answers it gives when it is asked alone, and answers the same afterwards.
  Saving a fitted model while it is being asked writes a file that reloads into a model with the same answers.
  Models fitted at the same time by goroutines of their own, even on the same data set, learn what they learn alone, and disturb no other model that is being asked. None of this reads or writes memory without synchronisation (only a model that is itself being fitted must be left alone).""",
  ["schedules", "histories"], "every interleaving of asking, saving and fitting in which no model is fitted while it is used otherwise", "Tests use every model from a single goroutine.",
  ["knn/knn.go", "naive/bernoulli_nb.go", "trees/id3.go", "meta/bagging.go", "meta/one_v_all.go", "linear_models/linearsvc.go", "neural/layered.go", "pca/pca.go", "kdtree/kdtree.go", "filters/binning.go"],
  [("Predict of every model", "knn/knn.go"), ("Predict", "meta/bagging.go"), ("Transform", "pca/pca.go"), ("Search", "kdtree/kdtree.go"), ("Transform of every filter", "filters/binning.go")],
  [("learnt", "what a model has learnt", "the model's fields"), ("doing", "the calls under way", "goroutines")],
  ["base.Classifier.Predict", "base.Classifier.Fit", "base.Classifier.Save"])

with open(OUT, "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS), "properties")
