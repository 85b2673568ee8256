doc = r'''# Design

Model-based verification of golearn with an explicit TLA+ specification.

## Language and tools

TLA+, checked with TLC. The properties are mostly about *functions of data* (grids, distances, trees, votes) with a
good deal of permitted freedom (ties, orders, random draws), so what is needed is a specification that can state a
*set* of right answers and a checker that decides membership for a recorded answer. TLC evaluates such definitions
directly on concrete values read from JSON (CommunityModules `Json`), enumerates nondeterministic choices as branches
(used to find *some* behaviour that explains a record), and also does exhaustive model checking and random simulation
of the same modules, so one language serves design checking, scenario generation and trace judging. Quint was tried
on paper and set aside: its simulator cannot read recorded traces, and Apalache's bounded symbolic search is poor at
the arithmetic-heavy definitions (variance, entropy tables) which TLC simply evaluates.

## Architecture

    spec/X.tla          what the system does: state, actions, definitions (one module per topic)
    spec/MCX.tla        the algorithm or the environment around X, with bounded instances:
                          MCX.cfg        model checked in every quick run (invariants, refinement, termination)
                          MCXBig.cfg     larger bounds, thorough tier
                          MCXBroken.cfg  a mistaken variant of the algorithm, which TLC must reject; otherwise the check fails
                          GenX.cfg       simulation mode: TLC writes random behaviours as scenarios (JSON)
    spec/TraceX.tla     accepts exactly the recorded traces which X can explain (EXTENDS X, TraceKit)
    harness/<group>/    recording drivers: Go main packages built *inside golearn's module* through -overlay from
                          /repo's working tree; they carry out scenarios on the real code and write one JSON event
                          per call/return with the projected state
    bin/check ID        build driver + design runs + scenario generation + recording (8 shards) + judging by TLC

A case (one recorded history) is accepted iff some behaviour of TraceX consumes all its events. TLC prints a DONE line for
every accepted case; a case without one is a violation, and the replay file holds the scenario seed, the events and the
first event that no transition explains. `bin/check ID --replay FILE` carries the same case out again.

**The oracle is the specification alone**: drivers contain no expected values, only projections of Go values to
integers/strings (exactly representable inputs; results scaled and checked to be within rounding of an integer). So the binding can't drift towards the
implementation; the checks judge what the code does, not how it is written. A driver uses exported API only, so refactoring of
unexported helpers does not disturb them.

**Vacuity guards**, in every run: (1) *canaries*: each driver falsifies a few of its own records (a cell, a vote, a row) and TLC has to
reject every one of these, else the check exits 2; (2) mistaken model variants (`...Broken.cfg`) must be rejected; (3) the
evidence file counts events per action, cases per family, distinct cases, states and transitions.

**Crashes, hangs, races**: a panic is an event of its own (`Try`) which no specification accepts unless it allows an error
there; a driver process that dies or stops making progress is reported as a violation of the case it was in; concurrent checks (C25,
C26) are also built with the race detector, whose report is a violation.

**Randomness**: drivers seed math/rand per case from VERIF_SEED, the family and the case number; the specification never assumes how many random draws the
code makes, only what results are possible.

Level claimed everywhere: *model checking of the design within bounds, conformance of the code on recorded executions*. The
code is covered on the executions recorded (400-6000 cases per property in the quick tier, some ten times more in the thorough one,
generated over small but complete structural ranges); nothing is proved about all inputs of the Go code.

Cost: quick 5-30 s per property (about 400 s for all), thorough 1-10 min per property.

## Per property

Bounds in brackets are those of the recorded executions (quick); "model" is what TLC checks exhaustively.

* **C01, C02** `Grid`, `MCGrid`, `TraceGrid`. State machine of the in-memory grid: groups, attributes, allocation, cells, class marks, structural copies. Model: all
  histories over 2 groups, a few attributes, 3 rows. TLC simulates histories (40 steps: AddAttribute[Group], Extend, Set, Mark, Unmark, Copy, lookups); they are replayed on DenseInstances with
  floats, categoricals, bits, and long runs of them crossing byte, 64-bit and page boundaries. After each step the whole grid is read back, through stored and fresh addresses. A write hitting
  another cell, an accepted late AddAttribute, a lost row show as a state no action explains. Unit tests sample single layouts; here all orders of operations are drawn.
* **C03** `View`. A window = sequence of source rows + sequence of source attributes. Histories of stacking, writing to the source, class marking, row lookups outside.
* **C04** `Iterate`. Iteration protocol with an adversarial visitor (declines or fails anywhere); recorded on dense, view, filtered, matrix-backed grids, cells compared to direct reads.
* **C05, C06** `Table`. Sorts, shuffles, splits, samples as nondeterministic permutations/divisions. Rows carry an id column so that the multiset of *whole* rows is decided; negative, equal and extreme keys, several keys, both directions, lazy and eager; splits at 0, 1 and where the draw equals the proportion (by fixing the seed the driver finds such draws through the public math/rand, no code reading).
* **C07** `Partition`. Decomposition by value/threshold and class distributions (plain, after split, after threshold, binary). Thresholds equal to values are included.
* **C08** `Compare`. Definitions of equal/compatible; pairs of grids differing in one aspect each. One known finding (below).
* **C09, C10** `Codec`. Text as fields; parse, write, re-parse, templates, attribute groups, files overwritten by shorter ones. Model: every small file. [0-8 rows, 1-5 columns, quoted text, blanks, negative/large/small numbers, binary attributes].
* **C11** `Codec`. Same abstract data set; bit-exact cells (hex), many rows (crossing read buffers), views, class attributes, groups.
* **C12** `Store`. Abstract container with a checksum under damage; all truncations and byte changes (strided in quick) of real data, attribute and model files, and files of the other families, loaded in a child with a watchdog; outcome must be error or original.
* **C13** `Encode`. Dictionaries that only grow, with JSON save/restore; TLC-generated histories; printing/parsing of floats at the declared precision, binaries.
* **C14** `Discretise`. Equal-width bins in exact arithmetic; ChiMerge as a nondeterministic merging process: TLC *searches for a run of merges* explaining the learned cuts (chi-square comparisons by exact fractions), thus ties may be broken any way.
* **C15** `Filter`. Filtered grid = images of attributes; histories over binary, float and a custom one-to-two filter, class marks, lookups, iteration with shuffled attribute order.
* **C16, C17, C18** `Neighbours`. The set of permissible neighbour sets under distance ties; model: branch-and-bound search over a half-space tree (wrong bound rejected). Real kd-trees, linear search, optimised Euclidean path, weighted votes, all metrics, k beyond rows.
* **C19, C20, C21** `Trees`. Validity of a grown tree against its training rows; pruning as a bottom-up process with its validation rows; gain, gain ratio, Gini from a fixed-point log table, rules asked alone and judged at every node of whole trees. Model: induction with any admissible choice and pruning over every small data set.
* **C22, C23** `Cart`. Every split's weighted loss recomputed over all features/thresholds; predicted values by leaf rows.
* **C24** `Isolation`. Scores in millionths: TLC *searches for a tree* of the model which explains the paths of every point.
* **C25** `Bagging`, `MCBagging`. Goroutine-level model of Fit's workers and Predict's pipe, votes channel, collector; TLC checks refinement of the user's view and termination; unlocked map and early close variants are rejected. Real runs with stand-in members that record start/end of calls, under many schedules (barriers, delays, GOMAXPROCS 1..8) and the race detector.
* **C26** `Forest`. Trees of real forests (walked through their exported fields) re-asked row by row; votes with the permitted freedom for unseen values.
* **C27** `OneVsAll`. Stand-in members record their training targets; scripted scores decide the answers.
* **C28** `Store`. Every classifier with Save/Load: predictions before saving, after saving, from a fresh model, from a model used before.
* **C29** `Metrics`. All measures in millionths, as laws and as recorded.
* **C30** `CrossFold`. A stand-in classifier records ids of fitted and tested rows of each round.
* **C31** `Density`, `MCDensity`. Definition on integer points with doubled eps; algorithm checked against it for every small point set (and chain/noise mistakes rejected). Exact-eps distances are included.
* **C32** `Mixture`. Components with whole-number means and power-of-two determinants; answers row by row and in different batches; fitted mixtures judged via their published parameters.
* **C33** `ClusterMap`. Set partitions; inversion and comparison of arbitrary maps.
* **C34** `Pairwise`. Exact integers (squares, multiples of 2520 etc.).
* **C35** `Network`. The simulator in whole numbers; model: back-propagation is the gradient on every small acyclic network; TLC-generated histories of settings, activation, errors and updates.
* **C36** `Layers`. Wirings read from real networks after training; forward behaviour with whole-numbered weights put in.
* **C37** `Threshold`. Weights of a trained perceptron found by bisection *from outside*, then all predictions in arbitrary batches.
* **C38** `Prediction`. A fitted classifier = an unknown function of rows; TLC-generated histories (fit, predict batches with repeated and reordered rows, other column orders) over all classifiers; data read back after every call.
* **C39** `Convert`. Frames, matrices, grids; histories with later changes to the frame.
* **C40** `Separator`. TLC searches integer weights separating the training rows at a cost below that of one mistake; if they exist, the training rows must be answered right.
* **C41** `Regression`. Normal equations on scaled coefficients with the tolerance the scaling implies.
* **C42** `NaiveBayes`. Exact fractions, every possible row.
* **C43** `Pca`. Scatter matrix in whole numbers, rounding tolerance derived in the module.
* **C44** `Text`. A small grammar of text files with a defect planted at any place (fields missing or left over, non-numbers, undeclared labels, unknown types, open quotes, sources that fail half-way, very long lines): the reading is the data the text says or an error, and a template survives it.
* **C45** `Sink`. Writers that fail after any number of bytes, and directories that cannot be written: the save reports the failure or the whole of what was to be written is there; the model quantifies over every point of failure.

No property is in `not_applicable`.

## Where the claims stop (and why)

Statements promise what is documented or plainly intended; where the code is free, the specification is nondeterministic.
These are deliberate limits, several of them found by false alarms during development:

* C09/C10: labels starting with `@` or `%`, or containing quotes/newlines, are not representable in ARFF/CSV and excluded; the precision estimate of a column comes from its first rows.
* C12: a "foreign file" for a model loader is a file of another family; a file of the same family with other parameters is legitimate content.
* C14: exact labels only where the printed precision separates the edges.
* C16: k = 0 excluded; ties free. C19: which branch an unseen value follows is free. C21: thresholds of least entropy are accepted for every rule (as the code documents); C22/C23: zero-gain splits are tolerated where rounding may have produced them.
* C27: member scores lie between 0 and 1, as the code documents. C28: rows on which the model chooses arbitrarily (ties) are excepted.
* C29: macro averages are over the reference classes, F1 is claimed where there is a true positive.
* C31: undersized clusters are dropped, as the code comments say. C32: fits that end in a singular covariance are skipped; the code has no mixing weights.
* C35: self-links of input nodes aren't updated. C36: numbering of input and output nodes is existentially quantified. C37: the learning rule is not claimed, only the trained model's behaviour.
* C38: training sets contain every class and models are tie-free. C39: time and generic series, and mixed series, are not claimed.
* C40: the dual solver may stop early on contradictory rows, so the one-feature majority rule is only for primal solvers, with a lead of 4/C; the plane clause only when both answers occur. C41: full-rank moderate data. C43: rounding to 1/1000.
* C45: the order of text columns is documented as free and the binary format varies with the order of maps, so "the whole" is compared by reading it back (or, for text, with grids of one feature).
* C42: the smoothing (k+1)/(n+1) is the code's own documented one.
* Not claimed at all: order of AllClassAttributes of dense grids, logging, textual summaries, `GetMetadata` model names, examples.

## Genuine defects found

Every defect was shown on the real code by a check, repaired in a separate `fix:` commit where the repair was small, and recorded
in known_findings.json (`fixed`). There are @FIXED@ of them; they include: overlapping storage after late attribute additions, wrong sort of
negative numbers, LazyShuffle losing rows, class distributions counting one row, CSV/ARFF parsing errors, unverified checksums, ID3 files left truncated,
KNN weighting ignored, kd-tree cosine pruning, Gini index identically 1, gain ratio equal to gain, DBSCAN panic, network updates erasing small weights,
layered networks reading hidden nodes, linear classifiers dropping negative features, PCA not centring.

Known finding, not repaired: **C08** `InstancesAreEqual` compares the first grid with itself. Repairing it makes four tests of the existing suite fail
(they compare grids which are not equal), so the existing suite, unedited, would not pass. Listed by case (`C08-unequal-*` answered "equal").

## Planted bugs

`seeded/` holds changes written from the properties and the code; each passes the existing tests, and its demo fails only with the change.

@SEEDS@

Besides these, single mutations of the source (relational operators, constants, deleted statements, dropped error checks; some hundreds, in scratch copies) were run through the
checks; survivors that change behaviour covered by a statement led to more cases (see the log below).

## Log of strengthening

@LOG@
'''
import json,glob,os
kf=json.load(open('/verif/known_findings.json'))
rows=["| change | property | caught by | what it breaks |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append("| %s | %s | %s | %s |"%(os.path.basename(d),m['property'],m.get('caught',m['property']),m['what_it_breaks']))
log=open('/verif/tools/strengthening.md').read() if os.path.exists('/verif/tools/strengthening.md') else '* (none yet)'
open('/verif/DESIGN.md','w').write(doc.replace('@FIXED@',str(len(kf['fixed']))).replace('@SEEDS@','\n'.join(rows)).replace('@LOG@',log.strip()))
