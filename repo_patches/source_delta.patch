From 28149926ead8459ab21fd548d09ddf8791ff3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 01/38] fix: decision tree leaves predict the majority class

The Node constructor searched the moved-from argument, so every leaf
predicted the first class.
---
 src/models/impl/DecisionTreeImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..d66add6 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -238,10 +238,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
       right(nullptr)
 {
   // Find predicted class as the maximum element in the
-  // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // count_per_class. Use the member, the argument has been moved from.
+  const auto &counts = this->count_per_class;
+  int idx = std::distance(counts.begin(),
+                          std::max_element(counts.begin(), counts.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 32508f3e35838c1fce551b5e6b14e4ba17efeb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 02/38] fix: stored datasets with several features can be
 loaded

The loader reads one feature per whitespace separated token, the writer
emitted all the features of an entry in a single token.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From 4782b789ac145d149bf55f07a8d8948b05352d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 03/38] fix: stored datasets keep the exact features and
 metrics

The default stream precision (6 digits) merged distinct features and
rounded metrics across a store/load cycle.
---
 src/Dataset.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..d670697 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,8 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Write enough digits to load back the exact same values.
+  const auto precision = os.precision();
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -100,15 +104,18 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &policy = d.first.second;
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
+    os.precision(std::numeric_limits<float>::max_digits10);
     for (auto &f : features)
       os << float(f) << ", ";
     os << "], ";
     os << "policy: " << policy << ", ";
+    os.precision(std::numeric_limits<double>::max_digits10);
     os << "xtime: " << metric;
     os << " },\n";
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From 9cf45fae2c5f7cd68c3b68dd00994dfd4488f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 04/38] fix: stored decision trees and random forests keep
 exact thresholds

The default stream precision (6 digits) rounded thresholds, so a loaded
model could select a different policy than the one that was stored.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index d66add6..1442c16 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Write enough digits to load back the exact same tree.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..47aeef0 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Write enough digits to load back the exact same forest.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From b3524de0557a6fd55af6de3481583d3408b18ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 05/38] fix: decision tree thresholds separate the samples they
 split

The midpoint computed in single precision could equal the left value
(adjacent floats) or overflow to infinity, sending samples to the wrong
side at evaluation.
---
 src/models/impl/DecisionTreeImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 1442c16..fc08092 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -358,7 +358,12 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      // Compute the midpoint in double precision to avoid overflow. It may
+      // round down to the left value, use the right value then to separate.
+      split_threshold =
+          ((double)feature_val_left + (double)feature_val_right) / 2.0;
+      if (split_threshold <= feature_val_left)
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 22de3d233cb1811209b39c2a7b2e353ab915ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 06/38] fix: retraining or loading a random forest replaces the
 old trees

Trees accumulated, so old trees kept voting and the stored forest had
more trees than it declared and could not be loaded.
---
 src/models/impl/RandomForestImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 47aeef0..5f823a2 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -35,6 +35,8 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  // Training replaces any previous forest.
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -155,6 +157,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Loading replaces any previous forest.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 2a603a0fd56aa6e413d58a11d392a53095b21e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 07/38] fix: retraining or loading a decision tree replaces
 classes and data

Classes and samples of the previous tree leaked in the stored model.
---
 src/models/impl/DecisionTreeImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index fc08092..3f8a002 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -57,6 +57,7 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
 {
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
+  classes.clear();
   classes.insert(responses.begin(), responses.end());
   data.clear();
   for (size_t i = 0, end = features.size(); i < end; ++i)
@@ -619,6 +620,9 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
   parser.parseExpected("classes:");
   parser.getNextToken();
   parser.parseExpected("[");
+  // Loading replaces any previous tree.
+  classes.clear();
+  data.clear();
   while (!parser.getNextTokenEquals("],")) {
     int class_idx;
     parser.parse<int>(class_idx);
-- 
2.43.0


From 880df167e800d171404eaf06f7ba0458ad89756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 08/38] fix: training a single model without measurements is a
 no-op

It dereferenced the first entry of an empty training set, per-region
training already returns in that case.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..2a0dd91 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // Nothing to train on yet.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 542addd7dc8d33eabb31b575fb0201cd75f1ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 09/38] fix: loading a PolicyNet rejects invalid files and
 drops stale results

A missing, truncated or mismatched file was silently accepted and action
probabilities cached for the previous parameters were kept.
---
 src/models/PolicyNet.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..de5612b 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
@@ -660,10 +661,7 @@ void PolicyNet::load(const std::string &filename)
   std::ifstream f(filename, std::ios::binary);
 
   // Check if the file was opened successfully.
-  if (!f) {
-    std::cerr << "Could not load model from " << filename << std::endl;
-    return;
-  }
+  if (!f) throw std::runtime_error("Could not load model from " + filename);
 
   // Load the weights and biases of each layer from the save file.
   f.read((char *)net->layer1.weights,
@@ -681,7 +679,14 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&rewardMovingAvg, sizeof(double));
   f.read((char *)&trainCount, sizeof(int));
 
+  // The file must have exactly the parameters of this network.
+  if (!f || f.peek() != std::ifstream::traits_type::eof())
+    throw std::runtime_error("Invalid PolicyNet model file " + filename);
+
   f.close();
+
+  // Drop the action probabilities of the network that was replaced.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From 7e9fdd7a7441911b4c5ffdad440de79364b255c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 10/38] fix: collecting a pending context keeps the execution
 in progress

The current context of the context-less interface was reset even when
another, pending context was collected.
---
 src/Region.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..086dc8e 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -531,8 +531,9 @@ void Apollo::Region::collectContext(Apollo::RegionContext *context,
 
   autoTrain();
 
+  // Collecting a pending context must not disturb an execution in progress.
+  if (current_context == context) current_context = nullptr;
   destroyRegionContext(context);
-  current_context = nullptr;
 }
 
 void Apollo::Region::end(Apollo::RegionContext *context, double metric)
-- 
2.43.0


From 9dcdd1ebc6a9a5585c94c4657d35e954c7b07686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 11/38] fix: JIT compiled decision trees use the exact
 thresholds

Thresholds were rounded to 6 digits in the generated source and compared
in double precision.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 3f8a002..39c08d8 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -105,8 +105,8 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
     return;
   }
 
-  source_fmt << "if (features[" & node.feature_idx & "] < " & node.threshold &
-      ") {\n";
+  source_fmt << "if (features[" & node.feature_idx & "] < (float)" &
+      node.threshold & ") {\n";
   if (node.left) {
     ++source_fmt;
     generate_source(*node.left, source_fmt);
@@ -130,6 +130,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
+  // Write enough digits to compile the exact same thresholds.
+  sstream.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
-- 
2.43.0


From 0fc22231ba9e1e6d6e71867f52662db17eea1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 12/38] fix: loading a decision tree compiles its JIT evaluate
 function

A region that loaded a model called an uninitialized function pointer.
---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 39c08d8..f56e3c5 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -41,9 +41,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -257,6 +254,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From f4ada836c131c8db5919a79685af178d03fa194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 13/38] fix: JIT evaluate functions are never stale or of
 another process

Retraining reopened the library that was already loaded and processes
overwrote the libraries of each other in /tmp.
---
 src/models/impl/DecisionTreeImpl.cpp | 20 +++++++++++++++-----
 src/models/impl/DecisionTreeImpl.h   |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f56e3c5..52cb416 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -122,8 +123,11 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  // Use a new id every time, dlopen returns the already loaded library for a
+  // known name. The pid avoids clashes with other processes.
+  std::remove(("/tmp/" + jit_function_name() + ".so").c_str());
+  unique_id = ++unique_counter;
+  std::string function_name = jit_function_name();
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
@@ -168,13 +172,19 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 #endif
 }
 
+std::string DecisionTreeImpl::jit_function_name() const
+{
+  return std::string("_jit_eval_") + std::to_string(getpid()) + "_" +
+         std::to_string(unique_id);
+}
+
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+#ifdef ENABLE_JIT_DTREE
   std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
+      std::string("/tmp/") + jit_function_name() + std::string(".so");
   std::remove(shared_library_name.c_str());
+#endif
 
   for (Node *node : tree_nodes)
     delete node;
diff --git a/src/models/impl/DecisionTreeImpl.h b/src/models/impl/DecisionTreeImpl.h
index 436855a..272faae 100644
--- a/src/models/impl/DecisionTreeImpl.h
+++ b/src/models/impl/DecisionTreeImpl.h
@@ -83,6 +83,7 @@ private:
 
   int evaluate_tree(const Node &tree, const std::vector<float> &features);
   void compile_and_link_jit_evaluate_function();
+  std::string jit_function_name() const;
   void generate_source(Node &node, OutputFormatter &source_code);
   int (*jit_evaluate_function)(const std::vector<float> &features);
 
-- 
2.43.0


From 85d25c9d44703c2ca6b38302433abdfc15581d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 14/38] fix: Kokkos integer range candidates stay within the
 range

Closed lower bounds were skipped, exceeding the upper bound, and open
lower bounds were included.
---
 src/connectors/kokkos/kokkos-connector.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..a9da1d9 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -165,9 +165,8 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+          (with_this.openLower ? (with_this.lower.int_value + 1)
+                               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
-- 
2.43.0


From 6b7b839e2b02aa71c02affcd1e38359fcbc6988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 15/38] fix: Kokkos floating point range candidates respect the
 range

Open lower bounds were included and continuous ranges only had the lower
bound as a candidate.
---
 src/connectors/kokkos/kokkos-connector.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index a9da1d9..dd1f316 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -38,6 +38,7 @@
 #include <cassert>
 #include <chrono>
 #include <cinttypes>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -172,12 +173,19 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
       fill_this[x] = mvv(id, value, info);
     }
   } else if (info->type == ValueType::kokkos_value_double) {
+    // A step of 0.0 means a continuous range, see count_range_slices.
+    double step = (with_this.step.double_value == 0.0)
+                      ? (with_this.upper.double_value -
+                         with_this.lower.double_value) /
+                            num_slices
+                      : with_this.step.double_value;
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
+      auto lower = (with_this.openLower
+                        ? std::nextafter(with_this.lower.double_value,
+                                         with_this.upper.double_value)
+                        : with_this.lower.double_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
-      value.double_value = lower + (x * with_this.step.double_value);
+      value.double_value = lower + (x * step);
       fill_this[x] = mvv(id, value, info);
     }
   }
-- 
2.43.0


From ad35e90ab457bd5b23adce57482cbe94fd3a9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 16/38] fix: Kokkos connector loads the stored model of a
 previous run

The file name was passed as the model description, aborting the run.
---
 src/connectors/kokkos/kokkos-connector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index dd1f316..23dba26 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -557,6 +557,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From 1025fea837091d8589beda7c788171ee88dab26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 17/38] fix: Kokkos tuning variables without candidates are
 left as they are

The empty candidate set caused a division by zero.
---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 23dba26..fb3716a 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -525,6 +525,8 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     auto set_size = metadata->candidate_set_size;
+    // Without candidates there is nothing to choose from.
+    if (set_size <= 0) return;
     if (choiceSpaceSize > max_choices / set_size) {
       printf("Apollo Tuner: too many choices\n");
     }
-- 
2.43.0


From 29aadba0c4797111ce6e829d405a2fe7f01c8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 18/38] fix: terminate long Kokkos variable names

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index fb3716a..a4b4955 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -434,6 +434,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -446,6 +447,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From dcd079eea00e81d2b5543140b44fc44b0a484a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 19/38] fix: parsing a truncated file ends with an error
 instead of a crash

Parser::getNextToken advanced the stream iterator past the end of the file,
which is undefined (null pointer dereference with libstdc++).
---
 src/helpers/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..4b43626 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -21,16 +21,16 @@ const char *Parser::getNextToken()
 
   int idx = 0;
   if (it != end) {
-    while (std::isspace(*it))
+    while (it != end && std::isspace(*it))
       ++it;
 
-    while (*it == '#') {
+    while (it != end && *it == '#') {
       is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
+      while (it != end && std::isspace(*it))
         ++it;
     }
 
-    while (!std::isspace(*it)) {
+    while (it != end && !std::isspace(*it)) {
       buffer[idx] = *it;
       ++idx;
       ++it;
-- 
2.43.0


From cca9b26f4377bb87de3a8b5090b4cfb50e9be838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:14 +0000
Subject: [PATCH 20/38] fix: Kokkos floating point ranges offer all their grid
 values

A closed upper bound was never offered, nor the last value below an upper
bound that is not on the grid; a range narrower than its step had no
candidates at all.
---
 src/connectors/kokkos/kokkos-connector.cpp | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index a4b4955..d2727fb 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -55,7 +55,6 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -71,9 +70,16 @@ struct VariableDatabaseData {
   valunion maximum;
   Kokkos::Tools::Experimental::VariableValue *candidate_values;
 };
-int64_t slice_helper(double upper, double lower, double step)
+// Counts the values lower + x * step (x >= 0) that the upper bound admits.
+int64_t slice_helper(double upper, double lower, double step, bool openUpper)
 {
-  return ((upper - lower) / step);
+  if (lower > upper) return 0;
+  // The quotient may be off by a rounding error.
+  int64_t last = (upper - lower) / step + 1;
+  while (last >= 0 && (openUpper ? lower + (last * step) >= upper
+                                 : lower + (last * step) > upper))
+    --last;
+  return last + 1;
 }
 static size_t num_unconverged_regions;
 
@@ -93,13 +99,13 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
+                 : slice_helper(in.upper.double_value,
                                 in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
-                                in.step.double_value);
+                                    ? std::nextafter(in.lower.double_value,
+                                                     INFINITY)
+                                    : in.lower.double_value,
+                                in.step.double_value,
+                                in.openUpper);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
       return -1;
-- 
2.43.0


From 5fcf15e854d71bf7fbac2b115d7d7151ac02caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 21/38] fix: empty Kokkos integer ranges have no candidates

The division of a negative width rounds to zero, so that an open range
without any value offered its excluded upper bound.
---
 src/connectors/kokkos/kokkos-connector.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d2727fb..82208b4 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -87,12 +87,13 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                            Kokkos::Tools::Experimental::ValueType type)
 {
   switch (type) {
-    case ValueType::kokkos_value_int64:
-      return 1 + ((((!in.openUpper) ? in.upper.int_value
-                                    : (in.upper.int_value - 1)) -
-                   ((!in.openLower) ? in.lower.int_value
-                                    : (in.lower.int_value + 1))) /
-                  in.step.int_value);
+    case ValueType::kokkos_value_int64: {
+      int64_t width = ((!in.openUpper) ? in.upper.int_value
+                                       : (in.upper.int_value - 1)) -
+                      ((!in.openLower) ? in.lower.int_value
+                                       : (in.lower.int_value + 1));
+      return (width < 0) ? 0 : 1 + (width / in.step.int_value);
+    }
     case ValueType::kokkos_value_double:
       return (in.step.double_value ==
               0.0)  // intentional comparison to double value 0.0, this
-- 
2.43.0


From 4bb57741586ec50605b4d2edfd171c7550b262cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 22/38] fix: Kokkos regions with long names do not share a name

The region name is cut at 63 characters. Two tuning problems whose joined
variable names agree that far had the same region name: the second one was
never trained, and loaded the stored model of the first.
---
 src/connectors/kokkos/kokkos-connector.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 82208b4..3918a6f 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -560,7 +560,15 @@ extern "C" void kokkosp_request_values(
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-    name = name.substr(0, apollo_user_file_length);
+    if (name.length() > apollo_user_file_length) {
+      // Keep the names of different tuning problems different.
+      char hash[18];
+      snprintf(hash,
+               sizeof(hash),
+               "-%016" PRIx64,
+               static_cast<uint64_t>(std::hash<std::string>{}(name)));
+      name = name.substr(0, apollo_user_file_length - strlen(hash)) + hash;
+    }
     std::string final_name = path + prefix + name + suffix;
     Apollo::Region *region;
     if (file_exists(final_name)) {
-- 
2.43.0


From 1944b22bb17accf1f600d1701d0d4e21151fcae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:48 +0000
Subject: [PATCH 23/38] fix: Kokkos variable names are kept whole

Region names are made of the variable names, so variables that agree in
their first 64 characters shared a region name: the region created second
was not registered and never trained, and both used the same model file.
---
 src/connectors/kokkos/kokkos-connector.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 3918a6f..1a176ee 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -439,9 +439,7 @@ extern "C" void kokkosp_declare_output_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
-  metadata->name[64] = '\0';
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -452,9 +450,7 @@ extern "C" void kokkosp_declare_input_type(
     Kokkos::Tools::Experimental::VariableInfo *info)
 {
   auto *metadata = new VariableDatabaseData();
-  metadata->name = (char *)malloc(sizeof(char) * 65);
-  strncpy(metadata->name, name, 64);
-  metadata->name[64] = '\0';
+  metadata->name = strdup(name);
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 56f7a22d1b0d1bb60ffb37e90cc3db080677a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:48 +0000
Subject: [PATCH 24/38] fix: Kokkos variable names with underscores do not make
 regions share a name

The variables "a_b", "c" and "a", "b_c" were both joined to a_b_c, so the
regions of these different tuning problems shared a name and a model file.
---
 src/connectors/kokkos/kokkos-connector.cpp | 25 +++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 1a176ee..fbf8b1d 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -496,17 +496,32 @@ Kokkos::Tools::Experimental::VariableValue mvv(
 std::string get_region_name(variableSet variables)
 {
   std::string name;
+  // Names that contain the separator can be joined to the same string.
+  std::string unambiguous;
+  bool has_separator = false;
   for (int x = 0; x < variables.num_variables; ++x) {
     auto *database_data = reinterpret_cast<VariableDatabaseData *>(
         variables.variable_ids[x].metadata->toolProvidedInfo);
     std::string local_name(database_data->name);
     name += local_name;
+    unambiguous += std::to_string(local_name.size()) + ":" + local_name;
+    has_separator |= local_name.find("_") != std::string::npos;
     if (x == (variables.num_variables - 1)) {
       name += ".yaml";
     } else {
       name += "_";
     }
   }
+  constexpr const size_t apollo_user_file_length = 63;
+  if (name.length() > apollo_user_file_length || has_separator) {
+    // Keep the names of different tuning problems different.
+    char hash[18];
+    snprintf(hash,
+             sizeof(hash),
+             "-%016" PRIx64,
+             static_cast<uint64_t>(std::hash<std::string>{}(unambiguous)));
+    name = name.substr(0, apollo_user_file_length - strlen(hash)) + hash;
+  }
   return name;
 }
 bool file_exists(std::string path)
@@ -555,16 +570,6 @@ extern "C" void kokkosp_request_values(
     std::string prefix = "RandomForest-step-0-rank-0-";
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
-    constexpr const int apollo_user_file_length = 63;
-    if (name.length() > apollo_user_file_length) {
-      // Keep the names of different tuning problems different.
-      char hash[18];
-      snprintf(hash,
-               sizeof(hash),
-               "-%016" PRIx64,
-               static_cast<uint64_t>(std::hash<std::string>{}(name)));
-      name = name.substr(0, apollo_user_file_length - strlen(hash)) + hash;
-    }
     std::string final_name = path + prefix + name + suffix;
     Apollo::Region *region;
     if (file_exists(final_name)) {
-- 
2.43.0


From e241e6ad01c4cdae3cc93cb44d2487715080fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 25/38] fix: Region.cpp compiles with OpenCV

ModelFactory is in the namespace apollo.
---
 src/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 086dc8e..a8d635e 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -80,7 +80,7 @@ void Apollo::Region::train(int step, bool doCollectPendingContexts, bool force)
 
   if (Config::APOLLO_RETRAIN_ENABLE)
 #ifdef ENABLE_OPENCV
-    time_model = ModelFactory::createRegressionTree(dataset);
+    time_model = apollo::ModelFactory::createRegressionTree(dataset);
 #else
     throw std::runtime_error("Retraining requires OpenCV");
 #endif
-- 
2.43.0


From 1e4ffced24d78b08099f22c4e360e7f6643d11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 26/38] fix: loading an OpenCV decision tree or random forest
 uses the loaded model

load() is static and returns the model, which was dropped, so that the
first selection of a region with a loaded model failed.
---
 src/models/DecisionTree.cpp | 5 +++++
 src/models/RandomForest.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index 06d72d9..fa07ae9 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -122,7 +122,12 @@ int DecisionTree::getIndex(std::vector<float> &features)
 void DecisionTree::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // A static function that returns the loaded model.
+  dtree = DTrees::load(filename);
+#else
   dtree->load(filename);
+#endif
 }
 void DecisionTree::store(const std::string &filename) { dtree->save(filename); }
 
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index 4267c3c..c2fc60b 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -126,7 +126,12 @@ int RandomForest::getIndex(std::vector<float> &features)
 void RandomForest::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // A static function that returns the loaded model.
+  rfc = RTrees::load(filename);
+#else
   rfc->load(filename);
+#endif
 }
 void RandomForest::store(const std::string &filename) { rfc->save(filename); }
 
-- 
2.43.0


From dae11928750f311fe67a4fd5651cb77251acecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 27/38] fix: the regression tree is trained on the measured
 times

It was trained on the policy indices, read as floating point numbers.
---
 src/models/RegressionTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/RegressionTree.cpp b/src/models/RegressionTree.cpp
index b82d874..e1249aa 100644
--- a/src/models/RegressionTree.cpp
+++ b/src/models/RegressionTree.cpp
@@ -57,7 +57,11 @@ RegressionTree::RegressionTree(Apollo::Dataset &dataset)
   //     int j = responses[i];
   //     rmat.at<float>(i, j) = 1.f;
   // }
-  Mat(fmat.rows, 1, CV_32F, &responses[0]).copyTo(rmat);
+  // Regress on the best measured metric of each feature vector.
+  std::vector<float> metrics;
+  for (auto &b : min_metric_policies)
+    metrics.push_back(b.second.second);
+  Mat(fmat.rows, 1, CV_32F, &metrics[0]).copyTo(rmat);
 
   // std::cout << "fmat: " << fmat << std::endl;
   // std::cout << "features.size: " << features.size() << std::endl;
-- 
2.43.0


From 4388625f12800b41ad34b29096d19d5bb6d0229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 28/38] fix: OpenCV models of regions with a single policy

OpenCV rejects a maximum of less than two categories, so creating such a
region failed.
---
 src/models/DecisionTree.cpp | 2 +-
 src/models/RandomForest.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index fa07ae9..730ef44 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -68,7 +68,7 @@ DecisionTree::DecisionTree(int num_policies,
   dtree->setMinSampleCount(1);
   dtree->setRegressionAccuracy(0);
   dtree->setUseSurrogates(false);
-  dtree->setMaxCategories(policy_count);
+  dtree->setMaxCategories(std::max(policy_count, 2));
   dtree->setCVFolds(0);
   dtree->setUse1SERule(false);
   dtree->setTruncatePrunedTree(false);
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index c2fc60b..7def077 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -72,7 +72,7 @@ RandomForest::RandomForest(int num_policies,
   rfc->setMinSampleCount(1);
   rfc->setRegressionAccuracy(0);
   rfc->setUseSurrogates(false);
-  rfc->setMaxCategories(policy_count);
+  rfc->setMaxCategories(std::max(policy_count, 2));
   rfc->setCVFolds(0);
   rfc->setUse1SERule(false);
   rfc->setTruncatePrunedTree(false);
-- 
2.43.0


From c3391e700d08c795feb0482a8af9edfefbd8e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 29/38] fix: rfc2dot_opencv.py shows thresholds as stored

---
 src/python/analysis/rfc2dot_opencv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/analysis/rfc2dot_opencv.py b/src/python/analysis/rfc2dot_opencv.py
index a0fe149..a049d20 100755
--- a/src/python/analysis/rfc2dot_opencv.py
+++ b/src/python/analysis/rfc2dot_opencv.py
@@ -27,7 +27,7 @@ def parse_node(node):
             dot = '%d'%(int(node.real()))
         elif node.isReal():
             #print('real val ', node.real())
-            dot = '%f'%(node.real())
+            dot = '%r'%(node.real())
         elif node.isString():
             #print('string val ', node.string())
             dot = '\"%s\"'%(node.real())
-- 
2.43.0


From 03c5b27ce010f3e3e3e883a3e5bbf8743e399cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 30/38] fix: rfc2dot_opencv.py accepts trees whose last node
 lies deeper

---
 src/python/analysis/rfc2dot_opencv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/analysis/rfc2dot_opencv.py b/src/python/analysis/rfc2dot_opencv.py
index a049d20..1a2bfca 100755
--- a/src/python/analysis/rfc2dot_opencv.py
+++ b/src/python/analysis/rfc2dot_opencv.py
@@ -64,8 +64,8 @@ def parse_tree(tid, tree):
         if i < treenodes.size() - 1:
             stack.append((i,depth))
 
-    (j,d) = stack.pop()
-    assert((j,d) == (0,0))
+    # The last node may lie deeper, the root is an ancestor of all.
+    assert(stack[0] == (0,0))
 
     return dot
 
-- 
2.43.0


From e5e3a3ed2b7c8b4b24503ac7b363bb161a49a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:17 +0000
Subject: [PATCH 31/38] fix: create-dataset.py handles regions with a single
 feature with pandas 2

---
 src/python/modeling/create-dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index 04e7dda..e0f7696 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -97,7 +97,7 @@ def agg_by_mean_min(data_per_region):
         idxmin = mean_g.idxmin()
 
         # Create a list of feature values if there is a single feature.
-        if len(feature_cols) > 1:
+        if isinstance(name, tuple):
             features = name
         else:
             features = [name]
-- 
2.43.0


From be0f1ecea7c9709962aabc2107e92d25ce076215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:17 +0000
Subject: [PATCH 32/38] fix: create-dataset.py finds the features when regions
 differ in their number

---
 src/python/modeling/create-dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index e0f7696..ea64cfc 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -3,6 +3,7 @@
 import argparse
 import pandas as pd
 import glob
+import re
 
 '''
 Reads data from CSV traces and creates a loadable dataset for training models.
@@ -21,11 +22,16 @@ def print_to_str(index, features, policy, xtime):
     return output
 
 
+def get_feature_cols(data):
+    # Columns are not in the order of the traces if the number of features differs.
+    return [c for c in data.columns if re.fullmatch('f[0-9]+', c)]
+
+
 def agg_by_none(data_per_region):
     output = '# agg by none\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     # Output all the data points.
     for i, row in data_per_region.iterrows():
@@ -40,7 +46,7 @@ def agg_by_mean(data_per_region):
     output = '# agg by mean\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     # Group by features and policy to extract policies per feature with
     # their mean xtime.
@@ -61,7 +67,7 @@ def agg_by_min(data_per_region):
     output = '# agg by min\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     groups = data_per_region.groupby(by=feature_cols)
     index = 0
@@ -84,7 +90,7 @@ def agg_by_mean_min(data_per_region):
     output = '# agg by mean_min\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     groups = data_per_region.groupby(by=feature_cols)
     index = 0
-- 
2.43.0


From 8da78cff70c9d09267f520ee5e4e5926c0280275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:17 +0000
Subject: [PATCH 33/38] fix: create-dataset.py keeps region names that look
 like numbers

---
 src/python/modeling/create-dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index ea64cfc..7c27b5a 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -126,7 +126,8 @@ def read_tracefiles(tracefiles):
         print('\r=== Reading %-100s %06d/%06d' %
               (f, i+1, nfiles), flush=True, end='')
         try:
-            csv_data.append(pd.read_csv(f, sep=' ', header=0, index_col=False))
+            csv_data.append(pd.read_csv(
+                f, sep=' ', header=0, index_col=False, dtype={'region': str}))
         except pd.errors.EmptyDataError:
             print('Warning: no data in', f)
     print()
-- 
2.43.0


From c1807e50e483286936212376e88e08f30c986f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:17 +0000
Subject: [PATCH 34/38] fix: create-dataset.py reads only the traces of regions
 in a directory

---
 src/python/modeling/create-dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index 7c27b5a..0b09aa3 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -142,7 +142,7 @@ def read_tracedirs(tracedirs):
     data = pd.DataFrame()
 
     for dir in tracedirs:
-        globlist = glob.glob('%s/trace*.csv' % (dir))
+        globlist = glob.glob('%s/trace*-region-*.csv' % (dir))
         data_dir = read_tracefiles(globlist)
         data = pd.concat([data, data_dir], ignore_index=True, sort=False)
 
-- 
2.43.0


From 0cde0173d624d6e4127ff3e139a60a16760cd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:45 +0000
Subject: [PATCH 35/38] fix: reject an output directory whose name exists as
 something else

mkdir failing with EEXIST was taken for an existing directory, also if the
name is that of a regular file: the run went on and wrote its outputs
nowhere.
---
 src/Apollo.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 2a0dd91..b62c749 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -85,9 +85,18 @@ inline const char *safeGetEnv(const char *var_name,
 void createDir(const std::string &dirname)
 {
   int ret = mkdir(dirname.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-  if (ret != 0 && errno != EEXIST)
-    throw std::runtime_error("Error creating directory " + dirname + " : " +
-                             strerror(errno));
+  if (ret == 0) return;
+
+  int err = errno;
+  // The name may exist as something else than a directory.
+  struct stat stbuf;
+  if (err == EEXIST && stat(dirname.c_str(), &stbuf) == 0) {
+    if (S_ISDIR(stbuf.st_mode)) return;
+    err = ENOTDIR;
+  }
+
+  throw std::runtime_error("Error creating directory " + dirname + " : " +
+                           strerror(err));
 }
 
 }  // namespace apolloUtils
-- 
2.43.0


From 67821760adc3f0b902aa430925845649f823f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:25 +0000
Subject: [PATCH 36/38] fix: analyze-traces.py keeps region names that look
 like numbers

Names such as 007 or 1e5 were read as numbers, so that the optimal
policies of the region were written to a file of another name.
---
 src/python/analysis/analyze-traces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/analysis/analyze-traces.py b/src/python/analysis/analyze-traces.py
index 5d2c95b..0a4fc62 100755
--- a/src/python/analysis/analyze-traces.py
+++ b/src/python/analysis/analyze-traces.py
@@ -28,7 +28,8 @@ def read_csv(dir, model, csv_map):
         print('\r=== Reading %-100s %06d/%06d' %
               (f, i+1, nfiles), flush=True, end='')
         try:
-            csv_map[f] = pd.read_csv(f, sep=' ', header=0)
+            csv_map[f] = pd.read_csv(
+                f, sep=' ', header=0, dtype={'region': str})
         except pd.errors.EmptyDataError:
             print('Warning: no data in', f)
 
-- 
2.43.0


From 20f927674fbf90ef728caa2dce795872886379f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:50 +0000
Subject: [PATCH 37/38] fix: model parameters must be numbers as a whole

---
 src/ModelFactory.cpp | 47 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/ModelFactory.cpp b/src/ModelFactory.cpp
index 6699b5a..9a1b1f5 100644
--- a/src/ModelFactory.cpp
+++ b/src/ModelFactory.cpp
@@ -7,6 +7,7 @@
 
 #include <cassert>
 #include <iostream>
+#include <limits>
 
 #include "apollo/models/DatasetMap.h"
 #include "apollo/models/DecisionTree.h"
@@ -23,6 +24,30 @@
 namespace apollo
 {
 
+// The std::sto* functions ignore what follows a number, and std::stoul wraps
+// negative numbers: a parameter must be a number as a whole.
+static void checkParam(const std::string &value, bool valid)
+{
+  if (!valid)
+    throw std::runtime_error("Invalid value " + value + " of a model parameter");
+}
+
+static unsigned parseUnsigned(const std::string &value)
+{
+  checkParam(value, value.find_first_not_of("0123456789") == std::string::npos);
+  unsigned long number = std::stoul(value);
+  checkParam(value, number <= std::numeric_limits<unsigned>::max());
+  return number;
+}
+
+static double parseDouble(const std::string &value)
+{
+  size_t end;
+  double number = std::stod(value, &end);
+  checkParam(value, end == value.size());
+  return number;
+}
+
 std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
     const std::string &model_name,
     int num_policies,
@@ -55,7 +80,11 @@ std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
   if (model_name == "Static") {
     int policy = 0;
     auto it = model_params.find("policy");
-    if (it != model_params.end()) policy = std::stoi(it->second);
+    if (it != model_params.end()) {
+      size_t end;
+      policy = std::stoi(it->second, &end);
+      checkParam(it->second, end == it->second.size());
+    }
     if (policy < 0)
       throw std::runtime_error("Invalid policy " + std::to_string(policy) +
                                " for Static");
@@ -76,7 +105,7 @@ std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
     // Default max_depth
     unsigned max_depth = 2;
     auto it = model_params.find("max_depth");
-    if (it != model_params.end()) max_depth = std::stoul(it->second);
+    if (it != model_params.end()) max_depth = parseUnsigned(it->second);
     std::unique_ptr<PolicyModel> explorer;
     it = model_params.find("explore");
     // TODO: enable explore_model_params? unneeded for now.
@@ -99,9 +128,9 @@ std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
     unsigned num_trees = 10;
     unsigned max_depth = 2;
     auto it = model_params.find("num_trees");
-    if (it != model_params.end()) num_trees = std::stoul(it->second);
+    if (it != model_params.end()) num_trees = parseUnsigned(it->second);
     it = model_params.find("max_depth");
-    if (it != model_params.end()) max_depth = std::stoul(it->second);
+    if (it != model_params.end()) max_depth = parseUnsigned(it->second);
     std::unique_ptr<PolicyModel> explorer;
     it = model_params.find("explore");
     // TODO: Should we enable explore_model_params? It is unneeded for now since
@@ -130,15 +159,15 @@ std::unique_ptr<PolicyModel> ModelFactory::createPolicyModel(
     double beta2 = 0.9;
     double threshold = 0.0;
     auto it = model_params.find("lr");
-    if (it != model_params.end()) lr = std::stod(it->second);
+    if (it != model_params.end()) lr = parseDouble(it->second);
     it = model_params.find("beta");
-    if (it != model_params.end()) beta = std::stod(it->second);
+    if (it != model_params.end()) beta = parseDouble(it->second);
     it = model_params.find("beta1");
-    if (it != model_params.end()) beta1 = std::stod(it->second);
+    if (it != model_params.end()) beta1 = parseDouble(it->second);
     it = model_params.find("beta2");
-    if (it != model_params.end()) beta2 = std::stod(it->second);
+    if (it != model_params.end()) beta2 = parseDouble(it->second);
     it = model_params.find("threshold");
-    if (it != model_params.end()) threshold = std::stod(it->second);
+    if (it != model_params.end()) threshold = parseDouble(it->second);
 
     return std::make_unique<PolicyNet>(
         num_policies, num_features, lr, beta, beta1, beta2, threshold);
-- 
2.43.0


From 0c51cf1b030784549ad97b94c0f0f58afddd9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:16 +0000
Subject: [PATCH 38/38] fix: stored subnormal features, times and thresholds
 can be loaded

---
 src/helpers/Parser.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index 4b43626..dacd848 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,9 +1,13 @@
 #include "helpers/Parser.h"
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "helpers/ErrorHandling.h"
 
@@ -86,6 +90,19 @@ void Parser::parseExpected(const char *expected)
   }
 }
 
+// Like std::stod and std::stof, but accepts subnormal values.
+template <typename T>
+static void parseReal(char *&token, T &val, T (*convert)(const char *, char **))
+{
+  char *end;
+  errno = 0;
+  val = convert(token, &end);
+  if (end == token) throw std::invalid_argument("not a number");
+  if (errno == ERANGE && std::isinf(val))
+    throw std::out_of_range("number out of range");
+  token = end;
+}
+
 template <>
 void Parser::parse(int &val)
 {
@@ -97,17 +114,13 @@ void Parser::parse(int &val)
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  parseReal(token, val, std::strtod);
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  parseReal(token, val, std::strtof);
 }
 
 
-- 
2.43.0

