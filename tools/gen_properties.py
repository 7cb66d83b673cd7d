#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that the wording is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every selected policy is one of the region's policies",
  "For every region, every selection model (fixed, cyclic, random, decision tree, random forest, policy network) and every stage of its life (exploring, just trained, retrained, loaded from a file), the policy index returned for an execution lies between 0 and the number of policies minus one. This holds for every feature vector of the region's arity, including values never measured, negative, fractional or very large ones, and for regions with a single policy. A fixed policy given beyond the number of policies falls back to 0 and a negative one is rejected.",
  ["inputs", "histories", "configurations"],
  "all model kinds x policy counts x feature arities x life stages x probe feature vectors x random draws",
  "The tests use one region with 4 to 20 policies and one model each and never look at indices for unmeasured features.",
  ["src/Region.cpp", "src/ModelFactory.cpp", "src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/Static.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp"],
  [("model dispatch", "Apollo::Region::getPolicyIndex"), ("clamping of the fixed policy", "ModelFactory::createPolicyModel")],
  ["return value of the policy query of a region"])

p("C02", "Exploration visits every policy, in the documented way",
  "While a region explores with the cyclic strategy (the default of learned models, or chosen explicitly), its successive selections are 0, 1, ..., P-1 and then start over at 0, whatever the features are and however executions of other regions are interleaved. With the random strategy every policy keeps a non-zero, equal chance at every selection, independent of the features; with the fixed model the configured policy is always returned. Exploration of a learned model goes on in the same way until its first training.",
  ["histories", "inputs", "configurations", "schedules"],
  "all interleavings of up to three regions' executions with features from a small alphabet, all policy counts up to a bound, all enumerated random seeds",
  "The tests only sum up times over a run; a skipped or repeated policy, or a cursor shared between regions, goes unnoticed.",
  ["src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/Static.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/ModelFactory.cpp"],
  [("cyclic cursor", "RoundRobin::getIndex"), ("uniform draw", "Random::getIndex"), ("explorer delegation", "DecisionTree::getIndex, RandomForest::getIndex")],
  ["sequence of selected policies"])

p("C03", "Measurements are averaged per features and policy; the best is the minimum",
  "For every history of measurements, a dataset holds exactly one entry per distinct (feature vector, policy) pair, whose value is the exponential moving average (new = half old + half measured, first value as is) of that pair's measurements in order, unaffected by all other pairs. The best policy of a feature vector is the one with the smallest value, the lowest index on ties, and merging one dataset into another is the same as inserting its entries one by one. Feature vectors differing in any component, or in length, are never confused.",
  ["histories", "inputs"],
  "all insertion/merge/clear sequences up to a depth over an alphabet of feature vectors, policies and metrics chosen to collide and to be close",
  "The tests never inspect the dataset, only the end result of a whole run.",
  ["src/Dataset.cpp", "include/apollo/Dataset.h"],
  [("keyed moving average", "Apollo::Dataset::insert"), ("arg-min reduction", "Apollo::Dataset::findMinMetricPolicyByFeatures")],
  ["dataset contents and size", "best policy table"],
  [("data", "moving average per (features, policy)", "Apollo::Dataset")])

p("C04", "A decision tree reproduces the measured best policies it was trained on",
  "After training on any set of measurements, a decision tree whose maximum depth is sufficient selects, for each measured feature vector, exactly the policy with the best measured value; the depth never exceeds the configured maximum, and at a depth limit a leaf selects the most frequent best policy among its samples (lowest index on ties). Each split is one that minimises the weighted Gini impurity, its threshold lies midway between, and strictly separates, the neighbouring feature values, and retraining forgets the previous tree. The result does not depend on the order in which the measurements arrived.",
  ["inputs", "histories", "configurations"],
  "all training sets up to a size over small feature alphabets (including adjacent, huge, negative and equal values), all labelings, all depth limits, all insertion orders of small sets",
  "The tests use one linear feature and one labeling; at the pinned commit every leaf predicted the first class and the simple tests still passed.",
  ["src/models/DecisionTree.cpp", "src/models/impl/DecisionTreeImpl.cpp"],
  [("greedy CART construction", "DecisionTreeImpl::build_tree/split/compute_gini"), ("evaluation", "DecisionTreeImpl::evaluate_tree")],
  ["selected policies for measured and unmeasured features", "stored model file"])

p("C05", "A random forest is the majority vote of its bootstrapped trees",
  "A trained random forest consists of exactly the configured number of trees, each trained (within the depth limit) on a sample, drawn with replacement and of the same size, of the region's best-policy table, in which every entry can occur; it selects the policy with the most tree votes, the lowest index on ties. Training is deterministic: the same measurements give the same forest. Retraining replaces all the previous trees.",
  ["inputs", "histories", "configurations"],
  "all small training tables and labelings x number of trees x depth limits x retraining histories x probe vectors",
  "The tests have no check on the forest at all besides the overhead benchmark.",
  ["src/models/RandomForest.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/impl/DecisionTreeImpl.cpp"],
  [("bagging", "RandomForestImpl::train"), ("majority vote", "RandomForestImpl::predict")],
  ["selected policies", "stored model file"])

p("C06", "A stored model reloads to identical selections",
  "When models are stored, every training leaves a per-step file and a latest file, and loading either of them in a later run - by the load parameter with or without a file name, by the model-file argument, or directly - gives a region that selects the same policy as the trained region for every feature vector (for the policy network: the same probabilities for the same random draws). The latest file always holds the last trained model of that region and rank, and a model loaded, stored and loaded again stays the same. Requesting a model file that does not exist fails loudly instead of starting untrained.",
  ["inputs", "histories", "configurations"],
  "all small training tables (with thresholds needing full precision) x model kinds x depths x load paths x probe vectors around every threshold; retrain histories",
  "No test stores or loads a model.",
  ["src/Region.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp", "src/helpers/Parser.cpp", "src/helpers/OutputFormatter.h"],
  [("store on train", "Apollo::Region::train"), ("load on creation", "Apollo::Region::Region"), ("writers and parsers", "DecisionTreeImpl::save/load, RandomForestImpl::save/load, PolicyNet::store/load")],
  ["model files", "selections after reload"])

p("C07", "Persistent datasets survive restarts exactly",
  "With persistent datasets enabled, everything a region measured is there again, with bit-identical features and values, when a region of the same name is created in the next run, for any number of features and entries and any number of restarts; new measurements continue the moving averages from there. Datasets of different regions never mix, and measuring nothing in a run leaves the stored dataset as it was. Training from a stored dataset at creation gives the model that training on the original measurements gives.",
  ["histories", "inputs", "configurations"],
  "all histories of runs x executions over two regions, feature counts 0..3 and values that need full precision, up to three restarts",
  "No test enables persistent datasets; files with two or more features could not even be loaded at the pinned commit.",
  ["src/Region.cpp", "src/Dataset.cpp", "src/helpers/Parser.cpp"],
  [("store at destruction", "Apollo::Region::~Region"), ("load at creation", "Apollo::Region::Region"), ("text format", "Apollo::Dataset::store/load")],
  ["dataset file", "dataset of the recreated region"])

p("C08", "A torn model or dataset file is never silently used",
  "If a run was interrupted while writing a dataset or model file, so that only a prefix of it exists, then loading it in the next run either fails loudly (error and termination or exception) or yields the complete content; it never silently continues with part of the measurements or a different model, never hangs and never touches memory out of bounds. This holds for every prefix length of every such file (dataset, decision tree, random forest, policy network).",
  ["crash_points", "inputs"],
  "every byte prefix of the files written for every small dataset/model, every load path",
  "No test loads any file.",
  ["src/helpers/Parser.cpp", "src/Dataset.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp"],
  [("strict token parser", "Parser::parseExpected / Parser::error"), ("size check", "PolicyNet::load")],
  ["outcome of creating a region that loads the file"])

p("C09", "Each execution is recorded exactly once with its own data",
  "Every completed execution of a region is recorded exactly once with the features given between its begin and end, the policy that was returned to it, and its metric: the given one, or the elapsed wall time between begin and end. Executions in progress are not recorded, features never leak from one execution to the next, and it makes no difference whether features are set one by one or at the start, or whether the context-based or the context-less interface is used. Execution counters count every execution exactly once.",
  ["histories", "inputs", "schedules"],
  "all sequences of begin/set/select/end operations up to a depth on up to three (also nested) regions, all interface variants, enumerated clock readings",
  "The tests do not look at what is recorded.",
  ["src/Region.cpp", "src/timers/TimerSync.cpp", "src/Dataset.cpp"],
  [("context collection", "Apollo::Region::collectContext"), ("reset of the reused context", "Apollo::Region::createRegionContext"), ("wall clock timer", "TimerSync")],
  ["dataset, execution info file, run summary"])

p("C10", "Asynchronously timed executions complete in any order without loss",
  "Executions timed on a device complete in any order and at any time: each is recorded exactly once, after its completion, with its own features, policy and device time, whenever the runtime looks for completed executions, and those still outstanding when a region is destroyed are waited for and recorded. An execution that has not completed is never recorded, the timer resources of every execution are released exactly once, and collecting completed executions does not disturb an execution in progress. A device error is reported loudly, not taken for a measurement.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of up to four asynchronous executions, their completions, synchronous executions and collection points on up to two regions; device answers (not ready, done, error) enumerated",
  "The asynchronous timers are not even compiled in the tested configurations; the device completion order cannot be controlled by a test.",
  ["src/Region.cpp", "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp"],
  [("pending list", "Apollo::Region::collectPendingContexts"), ("drain", "Apollo::Region::~Region"), ("event polling", "TimerCudaAsync::isDone, TimerHipAsync::isDone")],
  ["dataset", "device event create/destroy calls"])

p("C11", "Training happens exactly when it is due and then the model is frozen",
  "A learned model explores until it is trained and is trained exactly at an explicit request with at least one measurement, when the total number of completed executions is a multiple of the global period, when the region's own count of begun executions is a multiple of the per-region period, or when the dataset reaches the minimum training size; periods are checked when an execution of a still untrained region completes, and the first rule configured (global, per-region, minimum) that is due applies. Trees and forests, once trained or loaded, neither retrain nor change on any of these events unless forced, and stop collecting data (unless datasets are persistent); the policy network keeps training. A training uses precisely the measurements recorded up to and including the triggering execution.",
  ["histories", "configurations"],
  "all execution sequences of up to two regions up to a depth x period settings 0..4 x minimum sizes x model kinds x explicit training points",
  "The tests train explicitly once, or with one fixed period.",
  ["src/Region.cpp", "src/Apollo.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"],
  [("trigger evaluation", "Apollo::Region::autoTrain"), ("explicit training", "Apollo::train, Apollo::Region::train"), ("trainable flag", "DecisionTree::train/load")],
  ["selections, stored model files per step, dataset size"])

p("C12", "Regions do not influence each other",
  "With per-region models, what a region selects, records and learns is a function of that region's own sequence of operations only: interleaving it in any way with executions, training or loading of other regions changes nothing (the run-wide training period, which counts all executions, aside). This includes regions with different numbers of features and policies, different models and similar names. Names up to the supported length identify regions distinctly.",
  ["schedules", "histories", "configurations"],
  "all interleavings of the operation scripts of two or three regions, all pairs of model kinds",
  "The tests use a single region.",
  ["src/Region.cpp", "src/Apollo.cpp", "src/models/"],
  [("per-region state", "Apollo::Region"), ("region registry", "Apollo::regions")],
  ["per-region selections, datasets, stored models, trace files"])

p("C13", "The execution trace has one correct line per completed execution",
  "With tracing enabled, each region's trace file has a header naming its feature columns, followed by exactly one line per completed execution of that region, in completion order, with the rank, the model, the region name, the execution's index, its features in order, its selected policy and its metric. The run-wide trace has exactly one line per completed execution of any region, in completion order, with region, index, model and policy. Enabling tracing changes no selection, recording or training.",
  ["histories", "configurations", "schedules"],
  "all execution interleavings of up to two regions up to a depth x feature counts x models x tracing on/off",
  "No test enables tracing.",
  ["src/Region.cpp", "src/Apollo.cpp"],
  [("trace writing", "Apollo::Region::collectContext"), ("headers", "Apollo::Region::Region, Apollo::Apollo")],
  ["trace files under the traces directory"])

p("C14", "Collective training uses the measurements of all ranks",
  "In a distributed run with collective training, after a training step every rank's dataset of every region it knows contains its own measurements merged, with the usual averaging and in rank order, with the measurements of all the other ranks for the region of the same name, and its model is trained on exactly that. Measurements of regions unknown to a rank are ignored there, ranks may contribute none or very different numbers of measurements, and no measurement is altered, lost, duplicated or assigned to another region, policy or feature vector on the way. When ranks measured disjoint configurations, all ranks end up with the same model. If asked for, each rank writes a report of the step that lists exactly the measurements that the ranks exchanged, each once, with its rank, region, features (whole part), policy and metric.",
  ["histories", "inputs", "configurations"],
  "all assignments of small measurement sets over regions to 2 and 3 ranks",
  "The only MPI test gives the ranks the same region and checks one selection; the assignments of data to ranks are not varied.",
  ["src/Apollo.cpp"],
  [("pack/allgather/unpack", "Apollo::gatherCollectiveTrainingData, packMeasurements"), ("collective step", "Apollo::train")],
  ["datasets and selections on every rank"])

p("C15", "Single-model training shares one model learned from all regions",
  "With a single model for all regions, a training step trains every region's model on the union of all the regions' measurements (entries of the same features and policy averaged as usual, in region name order), so that afterwards all regions (with trees or forests) select the same policy for the same features and it is the one that the merged data imply. The regions' own datasets are not changed by it. Training without any measurement is harmless and leaves the regions exploring.",
  ["histories", "inputs", "configurations"],
  "all small measurement assignments to up to three regions x explicit and periodic training points",
  "No test enables the single-model mode; at the pinned commit training without data crashed.",
  ["src/Apollo.cpp", "src/Region.cpp", "src/Dataset.cpp"],
  [("merge and train", "Apollo::train")],
  ["selections of all regions after training, their datasets"])

p("C16", "A model description is honoured exactly or rejected loudly",
  "For every model description string, given as an argument or by the environment, a region either uses exactly the named model with exactly the given parameters and the documented defaults for the others, or its creation fails with an error; an unknown model, or an unknown parameter of a model, is never ignored. A description given as an argument takes precedence over the environment, which takes precedence over the default (always policy 0). Parameters may come in any order, and the first of a repeated parameter applies.",
  ["inputs", "configurations"],
  "all strings built from a grammar of names, parameters, values, orders, duplicates and malformed variants up to a length, from both sources",
  "The tests use a handful of well-formed descriptions.",
  ["src/Region.cpp", "src/ModelFactory.cpp", "src/Apollo.cpp"],
  [("parser and validator", "Apollo::Region::parsePolicyModel, validate"), ("factory", "ModelFactory::createPolicyModel")],
  ["selections of the created region, outcome of the creation"])

p("C17", "Kokkos tuning values come from the declared candidates",
  "For every combination of tuning variables (sets of integers, doubles or strings; integer and floating point ranges, open or closed), every value the connector hands out is one of the variable's declared candidates: a member of the set, or a value on the range's grid that respects its open or closed bounds. Exploration goes through every combination of candidates exactly once per cycle, and values, identifiers and metadata of the different variables are never mixed up. Variables without any candidates are left at their defaults.",
  ["inputs", "configurations", "histories"],
  "all combinations of up to three tuning variables over a menu of candidate declarations, full exploration cycles",
  "The connector has no test.",
  ["src/connectors/kokkos/kokkos-connector.cpp"],
  [("candidate enumeration", "associate_candidates, form_set_from_range, count_range_slices"), ("mixed-radix decoding", "kokkosp_request_values")],
  ["tuning values returned through the tool interface"])

p("C18", "Kokkos tuning contexts map to regions and are learned from",
  "Each Kokkos tuning context that requested values is measured once, from its request to its end, under the region identified by its variables, with the context's input values as features, whatever the nesting and order of contexts of different regions; ending a context that requested nothing has no effect. After every flush interval of ended contexts all regions that have measurements and are still exploring are trained; from then on each of them hands out what its model learned (with a sufficiently deep decision tree, or when all inputs have the same best: the best measured candidate combination of each measured input), and a later run starts from the stored random forests. Regions of different variables never share measurements or models, however long the names of the variables are. Fences are requested around kernels only while some region is still exploring, and always while a region created since the last training is.",
  ["histories", "schedules", "inputs"],
  "all sequences of request/end operations up to a depth over contexts of two regions (nested and sequential), flush intervals, and second runs",
  "The connector has no test.",
  ["src/connectors/kokkos/kokkos-connector.cpp", "src/Region.cpp"],
  [("context table", "kokkosp_request_values/kokkosp_end_context"), ("flush", "kokkosp_end_context")],
  ["tuning values returned, model files, datasets, fence callbacks"])

p("C19", "The policy network follows its reference learning rule",
  "For every sequence of trainings, the policy network's selection probabilities are those of the reference network: integer features encoded bit by bit, two hidden layers with rectifiers, softmax output, policy-gradient updates on the reward exp(-time) against the bias-corrected moving-average baseline with the Adam optimiser and the configured hyper-parameters. Selections are drawn with exactly the current probabilities (never those of an earlier network), and while the baseline is below the configured threshold policy 0 is selected and no update is made. A batch is one gradient step over all the measurements of the dataset.",
  ["inputs", "histories", "configurations"],
  "all sequences of up to four trainings over a menu of datasets x hyper-parameters x feature vectors x enumerated random draws",
  "The tests have no policy network check.",
  ["src/models/PolicyNet.cpp", "include/apollo/models/PolicyNet.h"],
  [("network", "FCLayer, ReLU, Softmax, Net"), ("baseline and threshold", "PolicyNet::trainNet, PolicyNet::getIndex")],
  ["selections for enumerated draws", "stored parameters"])

p("C20", "A JIT-compiled decision tree selects as the interpreted one",
  "In builds with compiled decision trees, every trained, retrained or loaded tree selects, for every feature vector, the policy that the same tree selects when interpreted, at every point of its life and however many trees or processes are active at the same time. Values on, next to and between thresholds are treated alike. This also holds for each tree of a random forest.",
  ["inputs", "histories", "schedules"],
  "all small trees over threshold alphabets that need full precision x train/retrain/load histories x probe vectors at and next to thresholds; two concurrent processes in all orders of their steps",
  "The tests compare one run's policies; thresholds there are exact in six digits and there is one tree per process.",
  ["src/models/impl/DecisionTreeImpl.cpp"],
  [("source generation", "DecisionTreeImpl::generate_source"), ("compile and load", "DecisionTreeImpl::compile_and_link_jit_evaluate_function")],
  ["selections of the JIT and of the default build"])

p("C21", "Replaying models return exactly what was recorded",
  "A region replaying a dataset selects, for each recorded feature vector, the policy with the best recorded value, and stops with an error for any other; a region replaying an optimal list returns the listed policies in order and stops with an error when the list is exhausted; a per-region fixed assignment gives each region the policy listed under its name and rejects unlisted regions. Missing files are errors. Replaying changes neither the files nor the recorded values.",
  ["inputs", "histories", "configurations"],
  "all small datasets, lists and assignments x all query sequences up to a depth",
  "No test uses these models.",
  ["src/models/DatasetMap.cpp", "src/models/Optimal.cpp", "src/Region.cpp"],
  [("lookup", "DatasetMap::getIndex"), ("queue", "Optimal::getIndex/load"), ("assignment", "Apollo::Region::Region")],
  ["selections, outcome of creation and selection"])

p("C22", "The C interface behaves as the C++ interface",
  "Any sequence of calls through the C interface (create, begin, set feature, get policy, end, train) gives the same selections, recorded measurements, training and stored models as the corresponding C++ calls, for all argument values. Arguments keep their meaning and order, including the minimum training size and the model description, and an empty description means the environment's. Several regions can be used at the same time.",
  ["histories", "inputs"],
  "all call sequences up to a depth over two regions, each run through both interfaces",
  "No test uses the C interface.",
  ["src/Apollo.cpp", "include/apollo/Apollo.h"],
  [("forwarders", "__apollo_region_*")],
  ["selections, datasets, files"])

p("C23", "Settings are honoured and only the requested outputs are written",
  "Contradictory or unsupported settings (both or none of collective and local training, both or none of single and per-region models, collective training without MPI) are rejected at start, and so are non-numeric values of numeric settings and output directories that cannot be made. For all other combinations exactly the requested artefacts are written, under the configured directories and nowhere else: models only if storing is on, datasets only if persistent, traces only if tracing is on, execution counts only if asked for, and no others (the policy and best-policy diagnostics, if asked for, go to the working directory). Output settings have no influence on selections.",
  ["configurations", "histories"],
  "all combinations of the on/off settings and directory settings x a set of short runs",
  "The tests run with one configuration.",
  ["src/Apollo.cpp", "src/Region.cpp", "src/Config.cpp"],
  [("configuration", "Apollo::Apollo"), ("outputs", "Apollo::Region::train, ~Region, Apollo::~Apollo")],
  ["exit status, directory tree after the run, selections"])

p("C24", "Exported diagrams describe the stored model",
  "The graph exported from a stored decision tree or random forest by the analysis tools has one node per tree node and one edge per parent-child relation, and shows the split feature and threshold of inner nodes, the impurity, sample count, per-class counts and class of every node, exactly as in the stored model; each tree of a forest gets its own subgraph. Following the edges by the shown thresholds gives the policy that the model selects. The same holds for the nodes, edges, splits and classes of forests stored by builds with OpenCV and the tool made for them.",
  ["inputs"],
  "all stored trees and forests of the small training tables of the tree and forest checks",
  "The tools have no test.",
  ["src/python/analysis/dtree2dot.py", "src/python/analysis/rfc2dot.py", "src/python/analysis/rfc2dot_opencv.py", "src/models/impl/DecisionTreeImpl.cpp"],
  [("tree walk", "dtree2dot.py, rfc2dot.py")],
  ["exported dot file"])

p("C25", "Datasets made from traces hold exactly the traced executions",
  "From any set of traces, given as files in any order or as the directories that traced runs leave behind, the dataset tool writes one dataset for each traced region and no other, named after the region whatever the name, also when regions differ in their number of features and when some traces are empty. Without aggregation it holds every traced execution once, with its features, policy and time; with 'mean' the mean time of each policy of each feature vector; with 'min' the fastest execution of each feature vector; with 'mean-min' the policy of least mean time of each feature vector, and that time. The library loads each dataset, and a decision tree trained on it selects the best traced policy.",
  ["inputs", "histories"], "all traces of up to three executions over two features, two policies and two times x aggregations; all orders of the files of two regions with one to three features; names of regions; empty traces; traced runs of all best-policy tables x one or several directories", "They have no tests.",
  ["src/python/modeling/create-dataset.py", "src/Region.cpp", "src/Dataset.cpp"],
  [("grouping", "agg_by_*"), ("reading", "read_tracefiles, read_tracedirs")], ["written datasets"])
p("C26", "Call-site identifiers are stable and distinct",
  "Within a run, the identifier computed from the call stack at a walk distance (2: the place where it is asked for, 3: the place that called that function, and so on, within the stack) is the same for each visit of one call site, whatever other call sites were visited in between and whatever the functions above or below on the stack are, and it differs between any two call sites, of one function, of different functions, and of different modules.",
  ["histories", "programs"], "all pairs and triples of visits of chains of three calls through functions of the program and of two libraries with equal offsets, at walk distances 2 to 4", "No test uses it.",
  ["src/Apollo.cpp"], [("backtrace", "Apollo::getCallpathOffset")], ["identifier string"])
p("C27", "Device timers measure the device time of the enclosed kernels",
  "The time measured by the device timers is the device's execution time of the work launched between begin and end on the default stream.",
  ["schedules"], "all device schedules", "No device in the test environment.",
  ["src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp"], [("device events", "TimerCudaAsync, TimerHipAsync")], ["metric"])

p("C28", "Models backed by OpenCV keep the guarantees of the other builds",
  "In builds with OpenCV, regions with decision trees or random forests explore, train and freeze as in other builds, also with a single policy. A trained model selects only policies that are the best measured ones of some feature vector; a decision tree of sufficient depth selects the best measured policy of every measured feature vector, and trees and forests respect the configured depth and number of trees. Retraining forgets the earlier model, and a stored model, loaded by any of the ways of loading, selects the same policy for every feature vector; a missing file is an error. With retraining enabled every training also gives the region a timing model whose predictions, for all features, lie between the smallest and the largest of the best measured times and keep the order of times that rise or fall with a feature; it is stored if and only if models are stored, and the stored one predicts the same.",
  ["inputs", "histories", "configurations"], "all best-policy tables over four points and two to three policies in one and two dimensions x depths x numbers of trees; all pairs of trainings; all tables of best times over three values; short runs x minimum training sizes",
  "No test is built with OpenCV.",
  ["src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/models/RegressionTree.cpp", "src/Region.cpp", "src/ModelFactory.cpp"],
  [("OpenCV learners", "DecisionTree, RandomForest"), ("timing model", "RegressionTree")], ["selections, predictions, stored files"])

p("C29", "An exhaustive experiment runs every policy once and then cyclically",
  "The driver for exhaustive experiments runs the given program, with its arguments, once with each fixed policy from 0 to the given number minus one, in this order, and then once with cyclic selection; every run is traced and does not retrain, whatever the user's settings of these are, and all other settings reach the program unchanged. The driver ends successfully if and only if all runs did, and runs nothing after a run that failed; meaningless requests run nothing. Afterwards the traces of every region hold, per policy, a file whose executions all used that policy, and one with all policies in cyclic order.",
  ["inputs", "fault_sequences", "configurations"], "all numbers of policies up to five x the run that fails x settings of the user x ways to give the program; end to end: all pairs of regions with up to three policies x executions",
  "It has no test.",
  ["src/python/analysis/run-exhaustive.py", "src/Region.cpp", "src/models/Static.cpp"],
  [("runs", "main of run-exhaustive.py"), ("traces", "Apollo::Region::Region, collectContext")], ["settings of each run, exit status, traces"])

p("C30", "Reports and optimal lists of an exhaustive experiment are those of its traces",
  "From the traces of an exhaustive experiment (every fixed policy, any number of ranks, regions and executions), the analysis tool reports for each rank the number of executions and the total time of each fixed policy, the total of the fastest policy of each execution, and its speedup over policy 0 and over the best fixed policy; for learning and replaying runs (cyclic, random, optimal) also their times before and after training, their speedups, and the share of the trained executions whose policy was the fastest, and was the fastest or took within 10% of its time. If asked for, it writes for each rank and region, whatever its name, one list with the fastest policy of each execution in order, and no other list; a run that replays the lists selects the fastest policy of every execution.",
  ["inputs", "histories"], "all tables of times of up to two policies, regions, executions and ranks; all learning and replaying runs of three executions over policy, stage and time; larger regular experiments; names of regions; traced runs of all best-policy tables, replayed", "The tools have no tests.",
  ["src/python/analysis/analyze-traces.py", "src/models/Optimal.cpp", "src/Region.cpp"],
  [("reports", "compute_execution_time, compute_speedup, compute_accuracy"), ("lists", "main of analyze-traces.py"), ("replay", "Optimal")], ["printed reports, written lists, selections of a replaying run"])

p("C31", "Diagnostic reports tell what happened",
  "With the policy log on, every query of a policy appends one line, in order, that names the region, its model, the features (whole part) and the selected policy, and nothing else is logged. With best-policy reports on, every training of a region with data writes one report, named after step and region, that lists each feature vector measured so far exactly once, with its fastest policy and that policy's metric, and nothing else. Neither is written when it is off, and neither changes any selection.",
  ["histories", "inputs"], "all histories of four executions, repeated queries, executions given up and trainings of two regions with different models, features and names; all tables of measurements over two feature vectors and two to three policies (measured or not) x models x two trainings; larger regular tables", "No test reads a report.",
  ["src/Region.cpp"],
  [("policy log", "Apollo::Region::getPolicyIndex"), ("best-policy report", "Apollo::Region::train")], ["report files, selections"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
