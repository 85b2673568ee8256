"""What each check runs: driver group, trace specification, design configurations, scenario generators."""
CHECKS = {}
def C(id, **kw):
    CHECKS[id] = kw

C("C01", group="base", trace="TraceGrid", design=[dict(module="MCGrid", cfg="MCGrid.cfg")],
  scenarios=[dict(name="cells", module="MCGrid", cfg="GenGrid.cfg", num=400, num_thorough=6000, depth=40)],
  technique="TLA+ grid state machine: TLC model checking, TLC-generated histories replayed in the real grid, traces validated by TLC")
C("C02", group="base", trace="TraceGrid", design=[dict(module="MCGrid", cfg="MCGrid.cfg")],
  scenarios=[dict(name="attrs", module="MCGrid", cfg="GenAttrs.cfg", num=400, num_thorough=6000, depth=40)],
  technique="TLA+ grid state machine: TLC model checking, TLC-generated histories replayed in the real grid, traces validated by TLC")
C("C03", group="base", trace="TraceView", design=[dict(module="MCView", cfg="MCView.cfg"), dict(module="MCView", cfg="MCViewBig.cfg", tier="thorough")],
  scenarios=[dict(name="views", module="MCView", cfg="GenView.cfg", num=400, num_thorough=5000, depth=40)],
  technique="TLA+ model of stacked row/attribute windows; TLC-generated histories replayed through real views; traces validated by TLC")
C("C04", group="base", trace="TraceIterate", design=[dict(module="MCIterate", cfg="MCIterate.cfg")],
  technique="TLA+ iteration protocol (model checked, incl. termination); recorded visitor calls on every grid kind validated by TLC")

C("C05", group="base", trace="TraceTable", design=[dict(module="MCTable", cfg="MCTable.cfg"), dict(module="MCTable", cfg="MCTableBig.cfg", tier="thorough")],
  technique="TLA+ table model with nondeterministic ordered permutations (TLC model checked); recorded sorts validated by TLC")
C("C06", group="base", trace="TraceTable", design=[dict(module="MCTable", cfg="MCTable.cfg"), dict(module="MCTable", cfg="MCTableBig.cfg", tier="thorough")],
  technique="TLA+ table model with nondeterministic permutations and divisions (TLC model checked); recorded shuffles, splits and samples validated by TLC")
C("C07", group="base", trace="TracePartition", design=[dict(module="MCPartition", cfg="MCPartition.cfg"), dict(module="MCPartition", cfg="MCPartitionBig.cfg", tier="thorough")],
  technique="TLA+ model of partitions and grouped counts (TLC model checked); recorded decompositions and class distributions validated by TLC")
C("C08", group="base", trace="TraceCompare", design=[dict(module="MCCompare", cfg="MCCompare.cfg")],
  technique="TLA+ definitions of grid equality and compatibility (TLC model checked); recorded verdicts on grid pairs validated by TLC")
for _id, _what in (("C09", "CSV"), ("C10", "ARFF"), ("C11", "native container")):
    C(_id, group="base", trace="TraceCodec", design=[dict(module="MCCodec", cfg="MCCodec.cfg")], chunk=400,
      technique="TLA+ model of data sets and their text and stored forms (TLC model checked); recorded %s reads, writes and round trips of the real code validated by TLC" % _what)

C("C12", group="ml", trace="TraceStore", design=[dict(module="MCStore", cfg="MCStore.cfg")], chunk=20,
  technique="TLA+ model of a checksummed container under damage (TLC model checked); every truncation and bit flip of real files loaded through the real code, outcomes validated by TLC")

C("C28", group="ml", trace="TraceStore", design=[dict(module="MCStore", cfg="MCStore.cfg")],
  technique="TLA+ model of saving and loading (TLC model checked); predictions of real models before and after saving, in fresh and reused models, validated by TLC")

C("C13", group="base", trace="TraceEncode", design=[dict(module="MCEncode", cfg="MCEncode.cfg")],
  scenarios=[dict(name="encode", module="MCEncode", cfg="GenEncode.cfg", num=300, num_thorough=5000, depth=50)],
  technique="TLA+ model of growing label dictionaries with save/restore (TLC model checked); TLC-generated histories replayed on real attributes and validated by TLC")

C("C15", group="base", trace="TraceFilter", design=[dict(module="MCFilter", cfg="MCFilter.cfg")],
  scenarios=[dict(name="filter", module="MCFilter", cfg="GenFilter.cfg", num=400, num_thorough=6000, depth=20)],
  technique="TLA+ model of filtered grids with their own class marks (TLC model checked); TLC-generated configurations and histories replayed on real filters and validated by TLC")

C("C14", group="base", trace="TraceDiscretise", design=[dict(module="MCDiscretise", cfg="MCDiscretise.cfg")],
  technique="TLA+ model of interval merging and equal-width bins (TLC model checked, incl. termination); recorded discretisations validated by TLC, which searches for a run of the merging process that explains each")

C("C34", group="num", trace="TracePairwise", design=[dict(module="MCPairwise", cfg="MCPairwise.cfg")],
  technique="TLA+ definitions of the distances and kernels in exact integer arithmetic (metric axioms TLC model checked); recorded results of the real functions validated by TLC")

_nb = [dict(module="MCNeighbours", cfg="MCNeighbours.cfg"), dict(module="MCNeighbours", cfg="MCNeighboursBig.cfg", tier="thorough"), dict(module="MCNeighbours", cfg="MCNeighboursBroken.cfg", broken=True, tier="thorough")]
_nv = [dict(module="MCVotes", cfg="MCVotes.cfg"), dict(module="MCVotes", cfg="MCVotesBig.cfg", tier="thorough")]
C("C16", group="ml", trace="TraceNeighbours", design=_nb + _nv,
  technique="TLA+ model of nearest-neighbour sets and votes with branch-and-bound search (TLC model checked); recorded predictions of every search method, metric and weighting validated by TLC")
C("C17", group="num", trace="TraceNeighbours", design=_nb,
  technique="TLA+ model of branch-and-bound nearest-neighbour search (TLC model checked); recorded kd-tree searches validated by TLC against the definition of the k nearest")
C("C18", group="num", trace="TraceNeighbours", design=_nb,
  technique="TLA+ model of nearest-neighbour sets and means (search TLC model checked); recorded regressions validated by TLC")

_trees = [dict(module="MCTrees", cfg="MCTrees.cfg"), dict(module="MCTrees", cfg="MCTreesBig.cfg", tier="thorough"), dict(module="MCTrees", cfg="MCTreesBroken.cfg", broken=True, tier="thorough")]
C("C19", group="trees", trace="TraceTrees", design=_trees,
  technique="TLA+ model of top-down induction over every small data set (TLC model checked); recorded trees of the real learners, and their answers, validated by TLC against the training rows")
C("C20", group="trees", trace="TraceTrees", design=_trees + [dict(module="MCTrees", cfg="MCTreesBroken.cfg", broken=True)],
  technique="TLA+ model of bottom-up pruning (TLC model checked, with a mistaken variant rejected); recorded prunings of real trees validated by TLC")
C("C21", group="trees", trace="TraceTrees", design=_trees,
  technique="TLA+ definitions of information gain, gain ratio and Gini index in fixed-point integers (sanity TLC model checked); recorded choices of the real rules, alone and in whole trees, validated by TLC")

_cart = [dict(module="MCCart", cfg="MCCart.cfg"), dict(module="MCCart", cfg="MCCartBig.cfg", tier="thorough"), dict(module="MCCart", cfg="MCCartBroken.cfg", broken=True, tier="thorough")]
C("C22", group="trees", trace="TraceCart", design=_cart,
  technique="TLA+ model of greedy tree growth over every small data set (TLC model checked); recorded classification trees and their answers validated by TLC, which recomputes every split's loss")
C("C23", group="trees", trace="TraceCart", design=_cart,
  technique="TLA+ model of greedy tree growth over every small data set (TLC model checked); recorded regression trees and their answers validated by TLC, which recomputes every split's loss")
C("C24", group="trees", trace="TraceIsolation", design=[dict(module="MCIsolation", cfg="MCIsolation.cfg"), dict(module="MCIsolation", cfg="MCIsolationBig.cfg", tier="thorough"), dict(module="MCIsolation", cfg="MCIsolationBroken.cfg", broken=True, tier="thorough")],
  technique="TLA+ model of subsampling and random isolation (TLC model checked); TLC searches for a tree of the model that explains the scores of every point of real forests")

_bag = [dict(module="MCBagging", cfg="MCBagging.cfg"), dict(module="MCBagging", cfg="MCBaggingUnlocked.cfg", broken=True), dict(module="MCBagging", cfg="MCBaggingEarly.cfg", broken=True), dict(module="MCBagging", cfg="MCBaggingBig.cfg", tier="thorough", timeout=2400)]
C("C25", group="meta", trace="TraceBagging", design=_bag, race=True, concurrent=True,
  technique="TLA+ model of the worker, pipe and vote goroutines, checked by TLC to refine the user's view and to finish; real runs under many schedules (and the race detector), recorded call by call, validated by TLC")

C("C26", group="trees", trace="TraceForest", race=True, concurrent=True, design=[dict(module="MCForest", cfg="MCForest.cfg"), dict(module="MCForest", cfg="MCForestBroken.cfg", broken=True), dict(module="MCForest", cfg="MCForestBig.cfg", tier="thorough")],
  technique="TLA+ model of forests of bootstrap trees and their votes (TLC model checked); the trees and answers of real forests, trained concurrently under the race detector, validated by TLC")

C("C27", group="meta", trace="TraceOneVsAll", design=[dict(module="MCOneVsAll", cfg="MCOneVsAll.cfg"), dict(module="MCOneVsAll", cfg="MCOneVsAllBroken.cfg", broken=True), dict(module="MCOneVsAll", cfg="MCOneVsAllBig.cfg", tier="thorough")],
  technique="TLA+ model of training one member per class and choosing the highest score (TLC model checked); calls into stand-in members of the real model validated by TLC")

C("C29", group="meta", trace="TraceMetrics", design=[dict(module="MCMetrics", cfg="MCMetrics.cfg"), dict(module="MCMetrics", cfg="MCMetricsBroken.cfg", broken=True), dict(module="MCMetrics", cfg="MCMetricsBig.cfg", tier="thorough")],
  technique="TLA+ definitions of confusion matrices and the measures derived from them (laws TLC model checked); recorded matrices and measures validated by TLC")
C("C30", group="meta", trace="TraceCrossFold", design=[dict(module="MCCrossFold", cfg="MCCrossFold.cfg"), dict(module="MCCrossFold", cfg="MCCrossFoldBroken.cfg", broken=True), dict(module="MCCrossFold", cfg="MCCrossFoldBig.cfg", tier="thorough")],
  technique="TLA+ model of cross-validation rounds (TLC model checked); calls into a stand-in classifier of the real procedure, and its matrices, validated by TLC")

_cl = lambda m: [dict(module=m, cfg=m + ".cfg"), dict(module=m, cfg=m + "Broken.cfg", broken=True), dict(module=m, cfg=m + "Big.cfg", tier="thorough")]
C("C31", group="cluster", trace="TraceDensity", design=_cl("MCDensity") + [dict(module="MCDensity", cfg="MCDensityChain.cfg", broken=True, tier="thorough")],
  technique="TLA+ model of density clustering, checked by TLC against the definition for every small set of points; recorded clusterings of the real code validated by TLC against the definition")
C("C32", group="cluster", trace="TraceMixture", design=_cl("MCMixture"),
  technique="TLA+ model of hard assignment to mixture components in exact integer costs (TLC model checked); recorded predictions of real mixtures, fitted and given, validated by TLC")
C("C33", group="cluster", trace="TraceClusterMap", design=_cl("MCClusterMap"),
  technique="TLA+ definition of cluster maps as set partitions, and of the comparison by renaming (TLC checked to agree); recorded inversions and comparisons validated by TLC")

C("C35", group="nets", trace="TraceNetwork", design=_cl("MCNetwork"),
  scenarios=[dict(name="network", module="MCNetwork", cfg="GenNetwork.cfg", num=600, num_thorough=10000, depth=40)],
  technique="TLA+ model of the network simulator in whole numbers (back-propagation TLC checked to be the gradient, on every small acyclic network); TLC-generated histories replayed on real networks and validated by TLC")

C("C36", group="nets", trace="TraceLayers", design=_cl("MCLayers"),
  technique="TLA+ model of layered networks inside the general simulator (TLC model checked); recorded wirings, training steps and predictions of real networks, with whole-numbered weights put in, validated by TLC")

C("C37", group="nets", trace="TraceThreshold", design=_cl("MCThreshold"),
  technique="TLA+ model of threshold classification row by row (TLC model checked); the weights of real perceptrons found by search from outside, and their predictions in many batches, validated by TLC")

C("C38", group="ml", trace="TracePrediction", design=_cl("MCPrediction") + [dict(module="MCPrediction", cfg="MCPredictionPlace.cfg", broken=True, tier="thorough")],
  scenarios=[dict(name="predict", module="MCPrediction", cfg="GenPrediction.cfg", num=700, num_thorough=10000, depth=15)],
  technique="TLA+ model of a fitted classifier as a function of rows (TLC model checked); TLC-generated histories of fitting and predicting replayed on every classifier and validated by TLC")

C("C42", group="linear", trace="TraceNaiveBayes", design=_cl("MCNaiveBayes"),
  technique="TLA+ model of naive Bayes in exact fractions (TLC model checked over every small training set); predictions of the real classifier for every possible row validated by TLC")

C("C41", group="linear", trace="TraceRegression", design=_cl("MCRegression"),
  technique="TLA+ model of least squares in exact fractions (TLC model checked: the equations hold, and give the least error); coefficients and predictions of real fits validated by TLC against the equations")

C("C40", group="linear", trace="TraceSeparator", design=_cl("MCSeparator"),
  technique="TLA+ model of margin classifiers through the origin (its claims TLC checked against the cheapest weights of every small training set); recorded fits and predictions of the real classifiers validated by TLC, which searches for separating weights")

C("C43", group="linear", trace="TracePca", design=_cl("MCPca"),
  technique="TLA+ model of principal directions in whole numbers (TLC model checked on data sets with rational directions); directions and coordinates given by the real code validated by TLC against the scatter of the data")

C("C39", group="base", trace="TraceConvert", design=_cl("MCConvert"),
  scenarios=[dict(name="convert", module="MCConvert", cfg="GenConvert.cfg", num=700, num_thorough=12000, depth=25)],
  technique="TLA+ model of conversions between frames, matrices and grids (TLC model checked); TLC-generated histories replayed in the real conversions and validated by TLC")

C("C44", group="base", trace="TraceText", design=_cl("MCText"), chunk=300,
  technique="TLA+ model of reading damaged text files line by line (TLC model checked, with a careless variant rejected); what the real readers answer for malformed files and failing sources validated by TLC")

C("C45", group="ml", trace="TraceSink", design=_cl("MCSink"), chunk=300,
  technique="TLA+ model of writing through two buffers to a device that fills up (TLC model checked, with writers that drop a failure rejected); the real writers' answers on failing streams, limited files and missing places validated by TLC")

C("C46", group="ml", trace="TraceKeyed", design=_cl("MCKeyed") + [dict(module="MCKeyed", cfg="MCKeyedFirst.cfg", broken=True, tier="thorough")],
  scenarios=[dict(name="keyed", module="MCKeyed", cfg="GenKeyed.cfg", num=500, num_thorough=8000, depth=26)],
  technique="TLA+ model of a keyed archive of entries (TLC model checked, with a reader that does not rewind and one that stops at the first entry rejected); TLC-generated histories of writing and reading replayed on real files and validated by TLC")

C("C47", group="base", trace="TraceShared", design=_cl("MCShared"), race=True, concurrent=True, chunk=60,
  scenarios=[dict(name="shared", module="MCShared", cfg="GenShared.cfg", num=150, num_thorough=1500, depth=30)],
  technique="TLA+ model of goroutines sharing one grid (TLC model checked: with its lock every history has an order that explains it, without one additions get lost); TLC-generated programs run by goroutines on real grids under the race detector, TLC searching for the order")

C("C48", group="base", trace="TraceGridText", design=_cl("MCGridText"),
  technique="TLA+ model of a data set printed line by line (TLC model checked: the page describes that data set and no other, a footer counted too early rejected); summaries and row texts of real grids of every kind read and judged by TLC")
C("C49", group="trees", trace="TraceTreeText", design=_cl("MCTreeText"),
  technique="TLA+ model of a printed tree and of a reader following it line by line (TLC model checked for every small tree, with a printer that does not indent rejected); printed forms of real trees, forests and CART trees read by TLC, which arrives at the answers the real models gave")

C("C50", group="meta", trace="TraceReport", design=_cl("MCReport"),
  technique="TLA+ model of counting rows and printing the matrix (TLC model checked, with a table that has columns for the reference classes only rejected); tables and summaries the real code prints read and judged by TLC")

C("C51", group="ml", trace="TraceAsked", design=_cl("MCAsked") + [dict(module="MCAsked", cfg="MCAskedPackage.cfg", broken=True), dict(module="MCAsked", cfg="MCAskedOverlap.cfg", broken=True)], race=True, concurrent=True,
  scenarios=[dict(name="asked", module="MCAsked", cfg="GenAsked.cfg", num=45, num_thorough=700, depth=70)],
  technique="TLA+ model of goroutines asking and fitting models through places of their own (TLC model checked; places shared by a model or the package rejected); TLC-generated rounds of work done by goroutines on real models under the race detector, judged by TLC")

NOTE = ("TLC checks the design configuration exhaustively within its constants and judges every recorded execution of the real code; "
        "the code is covered on the executions recorded (scenario counts are in the evidence), the projection from Go values to specification values in harness/ is trusted.")
NOT_APPLICABLE = {
}
