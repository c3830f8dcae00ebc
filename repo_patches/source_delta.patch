From 9776e522db79452efade28a9c15be99e6b298339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 01/43] fix: give IntegerCol a virtual destructor

It is deleted through unique_ptr<IntegerCol>, so deleting the 8, 16 and 32 bit
implementations was undefined behaviour.
---
 src/data_store/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..4627be2 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -70,6 +70,7 @@ class IntegerizedColumn : public Column {
   // An interface to access integer vector of different bits.
   class IntegerCol {
    public:
+    virtual ~IntegerCol() {}
     virtual uint operator [] (uint) const = 0;
     inline bool missing(uint i) const {
       return (*this)[i] == 0;
-- 
2.43.0


From eb434eeab855086edad9f6ab7292a85e863121e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 02/43] fix: no division by zero when frequent values use up
 the bucket budget

---
 src/data_store/column.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..afe9b06 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -232,7 +232,7 @@ void BucketizedFloatColumn::Add(const vector<float>* raw_floats) {
     for (const float v : *raw_floats) {
       buffer_.push_back(v);
     }
-    if (buffer_.size() > 100 * num_buckets_) {
+    if (buffer_.size() > 100UL * num_buckets_) {
       BuildBuckets();
     }
   } else {
@@ -287,7 +287,9 @@ void BucketizedFloatColumn::BuildBuckets() {
   }
   // Use uniform binning for the rest.
   uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+      max(static_cast<unsigned long>(1),
+          num_buckets_ > bucket_maxs_.size() ? left_over / (num_buckets_ - bucket_maxs_.size())
+                                             : left_over);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From ea8edf8816ae636dcaefd3c1689f8a882f3724be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 03/43] fix: keep buckets ordered and enclosing when values are
 infinite

---
 src/data_store/column.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index afe9b06..e6ce5b7 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -191,7 +191,8 @@ BucketizedFloatColumn::~BucketizedFloatColumn() {
 template <typename INT> Status AddBucketizedVecHelper(const vector<float>& raw_floats,
                                                       const map<float, uint>& bucket_map,
                                                       vector<INT>* col,
-                                                      vector<float>* bucket_mins) {
+                                                      vector<float>* bucket_mins,
+                                                      vector<float>* bucket_maxs) {
   col->reserve(col->size() + raw_floats.size());
   int max_bucket_id = bucket_map.rbegin()->second;
   for (auto v : raw_floats) {
@@ -203,6 +204,7 @@ template <typename INT> Status AddBucketizedVecHelper(const vector<float>& raw_f
       uint bucket_id = it != bucket_map.end() ? it->second : max_bucket_id;
       col->push_back(bucket_id);
       (*bucket_mins)[bucket_id] = min((*bucket_mins)[bucket_id], v);
+      (*bucket_maxs)[bucket_id] = max((*bucket_maxs)[bucket_id], v);
     }
   }
   return Status::OK;
@@ -211,11 +213,11 @@ template <typename INT> Status AddBucketizedVecHelper(const vector<float>& raw_f
 Status BucketizedFloatColumn::AddBucketizedVec(const vector<float>& raw_floats) {
   Status status;
   if (max_int() <= kMaxUInt8) {
-    return AddBucketizedVecHelper<uint8>(raw_floats, bucket_map_, &col_8_, &bucket_mins_);
+    return AddBucketizedVecHelper<uint8>(raw_floats, bucket_map_, &col_8_, &bucket_mins_, &bucket_maxs_);
   } else if (max_int() <= kMaxUInt16) {
-    return AddBucketizedVecHelper<uint16>(raw_floats, bucket_map_, &col_16_, &bucket_mins_);
+    return AddBucketizedVecHelper<uint16>(raw_floats, bucket_map_, &col_16_, &bucket_mins_, &bucket_maxs_);
   } else {
-    return AddBucketizedVecHelper<uint32>(raw_floats, bucket_map_, &col_32_, &bucket_mins_);
+    return AddBucketizedVecHelper<uint32>(raw_floats, bucket_map_, &col_32_, &bucket_mins_, &bucket_maxs_);
   }
   return Status::OK;
 }
@@ -292,7 +294,10 @@ void BucketizedFloatColumn::BuildBuckets() {
                                              : left_over);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
-  bucket_maxs_.push_back(numeric_limits<float>::max());
+  // Infinity is beyond max() and serves as the last bin itself.
+  if (bucket_maxs_.size() == 1 || bucket_maxs_.back() < numeric_limits<float>::max()) {
+    bucket_maxs_.push_back(numeric_limits<float>::max());
+  }
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From 9b65334bf933129e6f06b91e0c281be265f2dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 04/43] fix: load a TSV column that is requested twice once
 instead of using a freed column

---
 src/data_store/tsv_data_store.cc | 53 +++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..a1e13a5 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -50,6 +50,15 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
   return Status::OK;
 }
 
+// Checks a column which was already requested under some type.
+Status CheckSameType(const Column& column, Column::ColumnType type) {
+  if (column.type() != type) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Column {0} is requested under two different types.", column.name()));
+  }
+  return Status::OK;
+}
+
 }  // namespace
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
@@ -151,9 +160,16 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
-    column_map_[header].reset(new BucketizedFloatColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      // Requested before. Load it once.
+      Status status = CheckSameType(*column, Column::kBucketizedFloatColumn);
+      if (!status.ok()) return status;
+      continue;
+    }
+    column.reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
-        make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
+        make_pair(static_cast<BucketizedFloatColumn*>(column.get()),
                   float_column_indices_.size()));
     float_column_indices_.push_back(it->second);
   }
@@ -173,9 +189,16 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
-    column_map_[header].reset(new RawFloatColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      // Requested before. Load it once.
+      Status status = CheckSameType(*column, Column::kRawFloatColumn);
+      if (!status.ok()) return status;
+      continue;
+    }
+    column.reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
-        make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
+        make_pair(static_cast<RawFloatColumn*>(column.get()),
                   float_column_indices_.size()));
     float_column_indices_.push_back(it->second);
   }
@@ -190,9 +213,16 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
-    column_map_[header].reset(new StringColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      // Requested before. Load it once.
+      Status status = CheckSameType(*column, Column::kStringColumn);
+      if (!status.ok()) return status;
+      continue;
+    }
+    column.reset(new StringColumn(header));
     string_columns_.push_back(
-        make_pair(static_cast<StringColumn*>(column_map_[header].get()),
+        make_pair(static_cast<StringColumn*>(column.get()),
                   string_column_indices_.size()));
     string_column_indices_.push_back(it->second);
   }
@@ -203,9 +233,16 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
-    column_map_[header].reset(new StringColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      // Requested before. Load it once.
+      Status status = CheckSameType(*column, Column::kStringColumn);
+      if (!status.ok()) return status;
+      continue;
+    }
+    column.reset(new StringColumn(header));
     string_columns_.push_back(
-        make_pair(static_cast<StringColumn*>(column_map_[header].get()),
+        make_pair(static_cast<StringColumn*>(column.get()),
                   string_column_indices_.size()));
     string_column_indices_.push_back(it->second);
   }
-- 
2.43.0


From 3ec1b124dcf1da058a98af5b925e4230f4e0d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 05/43] fix: refuse columns of another size beside columns with
 zero rows

---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..50ceed6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (num_cols() > 0 && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..c707dca 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,7 +74,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (num_cols() > 0 && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From fce29f2e2e0583417501f6c48b1c3d8c4d61327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 06/43] fix: keep the flat-file column another thread loaded
 first instead of freeing it

---
 src/data_store/flatfiles_data_store.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index c707dca..29f2c87 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,6 +74,10 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
+  if (column_map_.find(column_name) != column_map_.end()) {
+    // Another thread has loaded it meanwhile and its column may already be in use.
+    return true;
+  }
   if (num_cols() > 0 && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
-- 
2.43.0


From 2fc177f7304c938f345c4c4093d9339bd3c9e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 07/43] fix: HasPrefix and HasSuffix read past strings shorter
 than the affix

---
 src/utils/utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..652dc47 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -93,11 +93,13 @@ bool StringCast(const string& s, float* v) {
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-  return std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
+  return s.size() >= prefix.size() &&
+      std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
 }
 
 bool HasSuffix(const string& s, const string& suffix) {
-  return std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
+  return s.size() >= suffix.size() &&
+      std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
 }
 
 }  // namespace strings
-- 
2.43.0


From 59535adaf95cffe3d21de7c24a0dcfb8ca26c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 08/43] fix: feature importance is zero instead of NaN when no
 gain is recorded

---
 src/gbdt_algo/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..0fb76a3 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -98,7 +98,7 @@ vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest) {
          return x.second > y.second;
        });
   // Normalize feature importance map.
-  if (feature_importance.size() > 0) {
+  if (feature_importance.size() > 0 && feature_importance[0].second > 0) {
     double max_importance = feature_importance[0].second;
     for (auto& p : feature_importance) {
       p.second /= max_importance;
-- 
2.43.0


From 08afec449fe0f36f45bb6997a3c84f640132947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 09/43] fix: refuse to write strings JSON cannot hold instead
 of silently dropping their bytes

---
 src/utils/json_utils.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/json_utils.cc b/src/utils/json_utils.cc
index 6fa2b94..a738768 100644
--- a/src/utils/json_utils.cc
+++ b/src/utils/json_utils.cc
@@ -50,9 +50,15 @@ Status JsonUtils::ToJson(const Message& message, string* str) {
   google::protobuf::util::JsonOptions options;
   options.always_print_primitive_fields = true;
 
+  string binary = message.SerializeAsString();
+  // The conversion below drops what is not valid UTF-8 without reporting it, while parsing rejects it.
+  if (!unique_ptr<Message>(message.New())->ParseFromString(binary)) {
+    return Status(error::INVALID_ARGUMENT,
+                  "The message has strings which are not valid UTF-8 or is nested too deeply.");
+  }
   return BinaryToJsonString(resolver_.get(),
                             GetTypeUrl(message.GetDescriptor()),
-                            message.SerializeAsString(), str, options);
+                            binary, str, options);
 }
 
 Status JsonUtils::FromJson(const string& json, Message* message) {
-- 
2.43.0


From fc19206042f0a6a22af92cb0e831860252d5b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 10/43] fix: write the score file of every valid checkpoint
 whatever the order they are given in

---
 src/gbdt_algo/evaluation.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..ead74a8 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,11 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  // Below they are taken from the front as the trees are added.
+  test_points.sort();
+  while (!test_points.empty() && test_points.front() <= 0) {
+    test_points.pop_front();
+  }
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 4652adb1f19545623f3d82f6f7c323e9d405e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 11/43] fix: let values whose gradients or hessians sum to zero
 take part in the split search

A value, category or the missing bucket with a zero gradient sum but a
hessian (or the reverse) was dropped from the scan, so its hessian was
counted on the wrong side and splits beside it were missed.
---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..b90c814 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From 7f74573f7da0d40c147467a8708b597d1a86b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 12/43] fix: choose thresholds that separate neighboring, huge
 and infinite values

The middle of two floats was computed in single precision: it overflowed
for huge values, could round onto the left value and was NaN between the
infinities, so that the split did not divide the rows it was chosen for.
---
 src/gbdt_algo/split_algo.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b90c814..4b8687c 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,14 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold = isnan(left_limit) ?
+                    feature.get_bucket_min(1) - 1e-3 :
+                    (static_cast<double>(left_limit) + right_limit) / 2.0;
+  // The middle of neighboring or infinite values may not separate them.
+  if (!isnan(left_limit) && !(left_limit < threshold && threshold <= right_limit)) {
+    threshold = right_limit;
+  }
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 1afec9032111be3ff7263004dd285ac456b5fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 13/43] fix: sum the hessians of both sides of a split instead
 of subtracting

The difference left a tiny non-zero hessian where a side has none (as in
the linear part of the hinge loss), which passed as admissible with an
absurd gain.
---
 src/gbdt_algo/split_algo.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index 4b8687c..b1cb859 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -160,12 +160,22 @@ bool FindBestSplitPoint(const IntegerizedColumn& feature,
   double lambda = config.l2_lambda();
   double total_energy = total.Energy(lambda);
 
+  // Hessians of the buckets from each point on. Subtracting the left hessian from the total
+  // instead would leave rounding noise where the right side has no hessian at all.
+  vector<double> right_hessians(histogram.size() + 1);
+  for (int i = histogram.size() - 1; i >= 0; --i) {
+    right_hessians[i] = right_hessians[i + 1] + histogram.data(i).h;
+  }
+
   GradientData left;
-  GradientData right;
+  GradientData left_missing_on_right;
   // Scanning to find the best splitting point.
-  for (int i = 0; i < histogram.size(); left += histogram.data(i), ++i) {
-    if (i == 0) continue;
-    right = total - left;
+  for (int i = 1; i < histogram.size(); ++i) {
+    left += histogram.data(i - 1);
+    if (histogram.value(i - 1) != 0) {
+      left_missing_on_right += histogram.data(i - 1);
+    }
+    GradientData right(total.g - left.g, right_hessians[i]);
     double gain = 0.0;
     bool missing_on_right = false;
     // By default we place missing on the left.
@@ -176,7 +186,6 @@ bool FindBestSplitPoint(const IntegerizedColumn& feature,
     // Try placing missing on the right.
     if (place_missing && histogram.HasMissingValue()) {
       const auto& data_on_missing = histogram.DataOnMissing();
-      auto left_missing_on_right = left - data_on_missing;
       auto right_missing_on_right = right + data_on_missing;
       if (min(left_missing_on_right.h, right_missing_on_right.h) > config.min_hessian()) {
         double gain_on_right = left_missing_on_right.Energy(lambda) +
-- 
2.43.0


From d97c30e67111f84768048924a281de5c90ac9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 14/43] fix: fill the precomputed LambdaMART discounts

They were written beyond the end of an empty vector.
---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..96980ee 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -42,7 +42,7 @@ LambdaMART::LambdaMART(const Config& config)
   }
   precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
-    precomputed_discounts_[i] = discount(i, dcg_base_);
+    precomputed_discounts_.push_back(discount(i, dcg_base_));
   }
 
   discount_ = [this] (uint rank) {
-- 
2.43.0


From 10b64b292e79ee2a9829baa2a41f9e16af667b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 15/43] fix: rows whose group is missing form a group instead
 of writing out of bounds

---
 src/loss_func/loss_func_pairwise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..4170c0b 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -69,11 +69,12 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     groups.resize(1);
     groups[0] = Subsampling::CreateAllSamples(num_rows);
   } else {
-    groups.resize(group_column->max_int() - 1);
+    // Index 0 is the group of rows whose group is missing.
+    groups.resize(group_column->max_int());
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
-      groups[group_id - 1].emplace_back(i);
+      groups[group_id].emplace_back(i);
     }
   }
 
-- 
2.43.0


From 162fc4595abf69735d65540cc6c879676d087420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 16/43] fix: no pairs to compare means zero gradients, not an
 undefined sampling rate

Without a pair the sampling probability was infinite, and its product with
zero pairs NaN, which was converted to an unsigned count.
---
 src/loss_func/loss_func_pairwise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 4170c0b..208d5c5 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,7 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
-  return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
+  // Without any pair there is nothing to sample.
+  return num_total_pairs == 0 ? 0.0 : pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
 }  // namespace
@@ -154,7 +155,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   double loss = std::accumulate(losses.begin(), losses.end(), 0.0);
   double weight_sum = std::accumulate(weight_sums.begin(), weight_sums.end(), 0.0);
 
-  loss /= weight_sum;
+  if (weight_sum != 0) loss /= weight_sum;
   if (progress) {
     *progress = PrepareProgressMessage(loss);
   }
-- 
2.43.0


From e06d2b380f00793ea97c6e7dee6a16cd03d01f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 17/43] fix: refuse missing targets and non-finite weights for
 pairwise losses

Sorting a group by targets that are NaN is undefined behavior.
---
 src/loss_func/loss_func_pairwise.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 208d5c5..6ad97d9 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -16,6 +16,7 @@
 #include "loss_func_pairwise.h"
 
 #include <algorithm>
+#include <cmath>
 #include <gflags/gflags.h>
 #include <string>
 #include <vector>
@@ -58,10 +59,19 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0) || std::isinf(pair_sampling_rate_)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
+  for (int i = 0; i < num_rows; ++i) {
+    // Missing targets cannot be ordered.
+    if (std::isnan(y(i))) {
+      return Status(error::INVALID_ARGUMENT, "Targets should not be missing.");
+    }
+    if (!std::isfinite(w(i))) {
+      return Status(error::INVALID_ARGUMENT, "Weights should be finite.");
+    }
+  }
 
   // Construct groups.
   vector<vector<uint>> groups;
-- 
2.43.0


From 83679d0325aa00c9e3bdb41228021b2dea90e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 18/43] fix: sample pairs reproducibly and without a data race

All worker threads drew from one shared random generator without a lock:
a data race, and trees that depended on the scheduling of threads.
---
 src/loss_func/loss_func_pairwise.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 6ad97d9..3b29d73 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -119,6 +119,13 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   auto set_zero = [](GradientData& x) { x = GradientData(); };
   std::for_each(gradient_data_vec->begin(), gradient_data_vec->end(), set_zero);
 
+  // The random generator is shared and the groups are processed in any order by any thread,
+  // so each group gets its own generator, seeded here in a fixed order.
+  vector<uint32> seeds(groups_.size());
+  for (auto& seed : seeds) {
+    seed = (*Subsampling::get_generator())();
+  }
+
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
@@ -126,7 +133,6 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
       pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
@@ -138,8 +144,10 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
             double weight_rescaling_factor = equal_group_weight_ ?
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
+            if (num_sample_pairs == 0) continue;
+            std::mt19937 generator(seeds[group_index]);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From e45b6515677eda6a5707ee551da5d9d2112d6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 19/43] fix: the logistic loss stays finite for scores of any
 size

exp overflowed for margins below -709 and made gradients NaN.
---
 src/loss_func/loss_func_math.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..83b6736 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,15 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  // exp of a negative number only, so that it never overflows.
+  double margin = y * f;
+  double e = exp(-fabs(margin));
+  double hessian = e / ((1 + e) * (1 + e));
+  if (margin >= 0) {
+    return make_tuple(log1p(e), y * e / (1 + e), hessian);
+  } else {
+    return make_tuple(log1p(e) - margin, y / (1 + e), hessian);
+  }
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From 32162d336c8378589e13c38e0799b00d996b40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 20/43] fix: report divergence when scores overflow the floats
 of the model

---
 src/gbdt_algo/gbdt_algo.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..5285e75 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -16,6 +16,7 @@
 #include "gbdt_algo.h"
 
 #include <algorithm>
+#include <cmath>
 #include <gflags/gflags.h>
 #include <glog/logging.h>
 #include <queue>
@@ -57,6 +58,12 @@ void ApplyShrinkage(TreeNode* tree, float shrinkage) {
   }
 }
 
+bool HasFiniteScores(const TreeNode& tree) {
+  return std::isfinite(tree.score()) &&
+      (!tree.has_left_child() || HasFiniteScores(tree.left_child())) &&
+      (!tree.has_right_child() || HasFiniteScores(tree.right_child()));
+}
+
 void ClearInternalFields(TreeNode* tree) {
   if (!tree->has_left_child()) {
     tree->clear_split();
@@ -100,6 +107,12 @@ void InitializeWithBaseForest(const Forest* base_forest,
   LOG(INFO) << "Finished initializing forest with " << base_forest->tree_size() << " trees.";
 }
 
+Status DivergenceError() {
+  return Status(error::INTERNAL,
+                "Stopped learning early because it diverges. "
+                "Please try adding regularization to the config.");
+}
+
 string MetaInfo(const StopWatch& stopwatch, const Config& config) {
   Config config_copy = config;
   config_copy.clear_float_feature();
@@ -174,9 +187,7 @@ Status TrainGBDT(DataStore* data_store,
 
     // When constant is NaN of Inf, the learning diverges and should be stopped.
     if (std::isnan(constant) || std::isinf(constant)) {
-      return Status(error::INTERNAL,
-                    "Stopped learning early because it diverges. "
-                    "Please try adding regularization to the config.");
+      return DivergenceError();
     }
 
     // Log progress
@@ -191,6 +202,10 @@ Status TrainGBDT(DataStore* data_store,
     ApplyShrinkage(tree, config.shrinkage());
     // Update the constant
     constant_tree->set_score(constant_tree->score() + constant);
+    // The model holds floats, which overflow before constant does.
+    if (!HasFiniteScores(*tree) || !HasFiniteScores(*constant_tree)) {
+      return DivergenceError();
+    }
     // Update function score.
     compute_tree_scores.AddTreeScores(*tree, constant, &f);
   }
-- 
2.43.0


From 4d02883050ccfc415d7295d1cd0c89af733dd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:18 +0000
Subject: [PATCH 21/43] fix: refuse sampling rates that are not a number

---
 src/gbdt_algo/utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 0fb76a3..7989c83 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
-- 
2.43.0


From f3bac7fc26b7f6c60648aa5033729739a63fcf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 22/43] fix: report files that could not be written completely

---
 src/gbdt_algo/evaluation.cc | 2 +-
 src/utils/utils.cc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index ead74a8..5931dc8 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 652dc47..c43337f 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From a8f8ca19fbaa3e3b5b05475c4a9512d28616ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:57 +0000
Subject: [PATCH 23/43] fix: refuse to run with no threads instead of hanging

---
 src/flags.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flags.cc b/src/flags.cc
index d14455c..3d026d9 100644
--- a/src/flags.cc
+++ b/src/flags.cc
@@ -25,5 +25,9 @@ DEFINE_string(testing_model_file, "", "The testing model file.");
 DEFINE_string(base_model_file, "", "The base model file.");
 DEFINE_string(config_file, "", "The config file.");
 DEFINE_int32(num_threads, 16, "The number of threads.");
+static bool ValidateNumThreads(const char* flag_name, google::int32 num_threads) {
+  return num_threads > 0;
+}
+static const bool num_threads_validated = google::RegisterFlagValidator(&FLAGS_num_threads, &ValidateNumThreads);
 DEFINE_string(mode, "train", "The running mode.");
 DEFINE_int32(seed, 1234567, "The random seed.");
-- 
2.43.0


From e92ac738e6f6882466cab9f8755dbcdf9e45b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 24/43] fix: a directory in place of a file is an error, not an
 uncaught exception

---
 src/utils/utils.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index c43337f..aec2cdc 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -20,23 +20,18 @@
 #include <fstream>
 #include <iomanip>
 #include <glog/logging.h>
-#include <streambuf>
+#include <sstream>
 #include <string>
 
 string ReadFileToStringOrDie(const string& file) {
   std::ifstream t(file);
-  string str;
-  t.seekg(0, std::ios::end);
-  if (t.tellg() <= 0) {
+  std::ostringstream content;
+  // Fails for files without content and for those that cannot be read, such as directories.
+  if (!(content << t.rdbuf())) {
     LOG(FATAL) << "Failed to read " << file
                << ". Please check its existence and permission.";
   }
-  str.reserve(t.tellg());
-  t.seekg(0, std::ios::beg);
-
-  str.assign((std::istreambuf_iterator<char>(t)),
-             std::istreambuf_iterator<char>());
-  return str;
+  return content.str();
 }
 
 void WriteStringToFile(const string& content, const string& file) {
-- 
2.43.0


From 3b70af60148440b7dbab802233dd86d0bd14dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:32 +0000
Subject: [PATCH 25/43] fix: score files of models without splits have a line
 per row of flat files too

---
 src/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index f17f777..78efa44 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -179,6 +179,11 @@ void Test() {
   // Load DataStore.
   auto data_store = LoadDataStoreOrDie(config);
 
+  // Models without splits load no column, but the number of rows comes from the columns loaded.
+  if (data_store->num_cols() == 0) {
+    LoadFeatures(GetFeaturesSetFromConfig(config), data_store.get(), nullptr);
+  }
+
   // Evaluate forest and write score out.
   mkdir(FLAGS_output_dir.c_str(), 0744);
   status = EvaluateForest(data_store.get(),
-- 
2.43.0


From 482e7b0cc084867855e5cf44c2f52964ade875dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 26/43] fix: raise Python exceptions for every error, duplicate
 columns and failed writes included

---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From b004af259c5a711ac8cf40249ce83cb0afb6ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 27/43] fix: Python columns stay valid when erased or when
 their data store is gone

---
 src/data_store/column.h          |  3 ++-
 src/data_store/data_store.cc     |  2 +-
 src/data_store/data_store.h      |  2 +-
 src/data_store/tsv_data_store.cc |  2 +-
 src/python/column_py.h           | 19 +++++++++++++------
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index 4627be2..998ddc0 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -29,7 +29,8 @@
 
 namespace gbdt {
 
-class Column {
+// Shared, so that it can outlive its data store.
+class Column : public std::enable_shared_from_this<Column> {
  public:
   enum ColumnType {
     kStringColumn = 0,
diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 50ceed6..a4551a8 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -72,7 +72,7 @@ uint DataStore::num_cols() const {
   return column_map_.size();
 }
 
-uint CountColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+uint CountColumn(const unordered_map<string, shared_ptr<Column>>& column_map,
                  Column::ColumnType type) {
   int count = 0;
   for (const auto& p : column_map) {
diff --git a/src/data_store/data_store.h b/src/data_store/data_store.h
index 08a6b79..c9b36a2 100644
--- a/src/data_store/data_store.h
+++ b/src/data_store/data_store.h
@@ -49,7 +49,7 @@ public:
   }
 
 protected:
-  unordered_map<string, unique_ptr<Column>> column_map_;
+  unordered_map<string, shared_ptr<Column>> column_map_;
   Status status_;
 };
 
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index a1e13a5..4492615 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -41,7 +41,7 @@ string ReadFirstLine(const string& tsv) {
   return ReadLine(in);
 }
 
-Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
+Status MaybeFindFirstNotOK(const unordered_map<string, shared_ptr<Column>>& column_map) {
   for (const auto&p : column_map) {
     if (!p.second->status().ok()) {
       return p.second->status();
diff --git a/src/python/column_py.h b/src/python/column_py.h
index 8f2f491..faca7fc 100644
--- a/src/python/column_py.h
+++ b/src/python/column_py.h
@@ -20,42 +20,49 @@
 #include "gbdt_py_base.h"
 #include "src/data_store/column.h"
 
+#include <memory>
 #include <utility>
 
 namespace gbdt {
 
+// Keeps the column alive after it has been erased or its data store is gone.
+template<typename T>
+shared_ptr<const T> Share(const T* column) {
+  return column ? std::static_pointer_cast<const T>(column->shared_from_this()) : nullptr;
+}
+
 class StringColumnPy {
  public:
-  StringColumnPy(const StringColumn* column) : column_(column) {}
+  StringColumnPy(const StringColumn* column) : column_(Share(column)) {}
   int size() const;
   const string name() const;
   const string& get(int i) const;
   const string Description() const;
  private:
-  const StringColumn* column_ = nullptr;
+  shared_ptr<const StringColumn> column_;
 };
 
 class RawFloatColumnPy {
  public:
-  RawFloatColumnPy(const RawFloatColumn* column) : column_(column) {}
+  RawFloatColumnPy(const RawFloatColumn* column) : column_(Share(column)) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   const string Description() const;
  private:
-  const RawFloatColumn* column_ = nullptr;
+  shared_ptr<const RawFloatColumn> column_;
 };
 
 class BucketizedFloatColumnPy {
  public:
-  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(column) {}
+  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(Share(column)) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   vector<pair<float, float>> GetBuckets() const;
   const string Description() const;
  private:
-  const BucketizedFloatColumn* column_ = nullptr;
+  shared_ptr<const BucketizedFloatColumn> column_;
 };
 
 }  // namespace gbdt
-- 
2.43.0


From 771167d4948baac87e649b33b140abe2bf3903be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 28/43] fix: training and scoring an empty data store from
 Python raises an exception instead of crashing

---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..1fd185d 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,9 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  }
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From 2d3b7e5ac8f2f25acea7149deba39621f1e5d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 29/43] fix: training with no threads from Python raises an
 exception instead of hanging

---
 src/python/train_gbdt_py.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 1fd185d..0894b14 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -46,6 +46,10 @@ ForestPy TrainPy(DataStorePy* data_store,
                  ForestPy* base_forest_py,
                  int random_seed,
                  int num_threads) {
+  if (num_threads <= 0) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("num_threads should be positive (actual {0})", num_threads)));
+  }
   FLAGS_num_threads = num_threads;
 
   Config config;
-- 
2.43.0


From e69c2cf3cd4d99abffe3fcf739209a48a7487575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 30/43] fix: training from Python heeds weight_column and
 binarize_target like the command line

---
 src/python/train_gbdt_py.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 0894b14..a360606 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -73,6 +73,13 @@ ForestPy TrainPy(DataStorePy* data_store,
   FloatVector w_hat = [](int){ return 1.0f; };
   if (!w.empty()) {
     w_hat = ([&w](int i) { return w[i]; });
+  } else if (!config.weight_column().empty()) {
+    const auto* weights = data_store->data_store()->GetRawFloatColumn(config.weight_column());
+    if (!weights) {
+      ThrowException(Status(error::INVALID_ARGUMENT,
+                            fmt::format("Failed to load weight column {0}", config.weight_column())));
+    }
+    w_hat = [weights](int i) { return (*weights)[i]; };
   }
 
   FloatVector y_hat = [&y](int i) { return y[i]; };
@@ -89,7 +96,9 @@ ForestPy TrainPy(DataStorePy* data_store,
     const vector<float>& target_floats = targets->raw_floats();
     y_hat = [&target_floats](int i) { return target_floats[i]; };
   }
-
+  if (config.binarize_target()) {
+    y_hat = [y_hat](int i) { return y_hat(i) > 0 ? 1 : -1; };
+  }
 
   // Initialize Loss Function.
   unique_ptr<LossFunc> loss_func = LossFuncFactory::CreateLossFunc(config);
-- 
2.43.0


From 53b81a2726c4737b0a13c3e6020933ac53524c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 31/43] fix: predict_at_checkpoints no longer mixes up the
 score files of other calls and processes

---
 gbdt/_forest.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..8c07a37 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,19 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
-
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        # A directory of its own, without score files of other calls.
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as scores:
+                    result = [float(line) for line in scores if line.strip()]
+                yield p, result
+        finally:
+            shutil.rmtree(output_dir)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From 5aa583d9e3d7d1aa7ef0010d423bb3eef06c9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 32/43] fix: a missing group column is an error of training,
 not a crash of the caller

---
 src/gbdt_algo/gbdt_algo.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 5285e75..ba4e350 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -152,7 +152,15 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
 
-  status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
+  const StringColumn* group_column = nullptr;
+  if (!config.group_column().empty()) {
+    group_column = data_store->GetStringColumn(config.group_column());
+    if (!group_column) {
+      return Status(error::NOT_FOUND,
+                    fmt::format("Failed to load group column {0} from data_store.", config.group_column()));
+    }
+  }
+  status = loss_func->Init(data_store->num_rows(), w, y, group_column);
   if (!status.ok()) return status;
 
   uint num_rows = data_store->num_rows();
-- 
2.43.0


From 30ca5345dc3539c1d21a2a546a8c4a321d9e8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 33/43] fix: a model that does not fit the data is an error,
 not a crash of the caller

---
 src/gbdt_algo/evaluation.cc |  4 ++++
 src/gbdt_algo/gbdt_algo.cc  |  4 ++++
 src/gbdt_algo/utils.cc      | 28 ++++++++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  3 +++
 4 files changed, 39 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 5931dc8..03c9c0c 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -67,6 +67,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckForest(forest, data_store);
+  if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
   ComputeTreeScores compute_tree_scores(data_store);
@@ -97,6 +99,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckForest(forest, data_store);
+  if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
   scores->clear();
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index ba4e350..0c8ff86 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -151,6 +151,10 @@ Status TrainGBDT(DataStore* data_store,
   vector<const Column*> features;
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
+  if (base_forest) {
+    status = CheckForest(*base_forest, data_store);
+    if (!status.ok()) return status;
+  }
 
   const StringColumn* group_column = nullptr;
   if (!config.group_column().empty()) {
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 7989c83..6f62faa 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -127,6 +127,34 @@ unordered_set<string> CollectAllFeatures(const Forest& forest) {
   return feature_names;
 }
 
+Status CheckTree(const TreeNode& tree, DataStore* data_store) {
+  if (!tree.has_left_child()) return Status::OK;
+
+  const auto& split = tree.split();
+  const auto* column = data_store->GetColumn(split.feature());
+  if (!column) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to load feature {0} from data_store.", split.feature()));
+  }
+  if (!column->status().ok()) return column->status();
+  if (!(column->type() == Column::kBucketizedFloatColumn && split.has_float_split()) &&
+      !(column->type() == Column::kStringColumn && split.has_cat_split())) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Split and feature type mismatch for {0}.", split.feature()));
+  }
+
+  auto status = CheckTree(tree.left_child(), data_store);
+  return status.ok() ? CheckTree(tree.right_child(), data_store) : status;
+}
+
+Status CheckForest(const Forest& forest, DataStore* data_store) {
+  for (const auto& tree : forest.tree()) {
+    auto status = CheckTree(tree, data_store);
+    if (!status.ok()) return status;
+  }
+  return Status::OK;
+}
+
 bool IsSingleNodeTree(const TreeNode& tree) {
   return !tree.has_left_child();
 }
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..1f228a8 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -40,6 +40,9 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
+// Checks that data_store has the columns that the splits of forest need, with the right types.
+Status CheckForest(const Forest& forest, DataStore* data_store);
+
 bool IsSingleNodeTree(const TreeNode& tree);
 
 list<int> GetTestPoints(const Config& config, int forest_size);
-- 
2.43.0


From 94d1e329338308348a4cdc955eeb9cbbe17cba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:48 +0000
Subject: [PATCH 34/43] fix: release the remaining blocks when loading TSVs
 fails

---
 src/data_store/tsv_data_store.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 4492615..5679ceb 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -78,18 +78,19 @@ Status TSVDataStore::LoadTSVs(const vector<string>& tsvs, const Config& config)
     return status;
   }
 
-  vector<promise<TSVBlock*>> blocks(tsvs.size());
+  vector<promise<unique_ptr<TSVBlock>>> blocks(tsvs.size());
   ThreadPool pool(FLAGS_num_threads);
   for (int i = 0; i < tsvs.size(); ++i) {
     pool.Enqueue([this, &block=blocks[i], tsv=tsvs[i], skip_header=(i==0)] {
-        block.set_value(new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header));
+        block.set_value(unique_ptr<TSVBlock>(
+            new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header)));
       });
   }
 
   for (int i = 0; i < blocks.size(); ++i) {
     auto block_future = blocks[i].get_future();
     block_future.wait();
-    unique_ptr<TSVBlock> block(block_future.get());
+    unique_ptr<TSVBlock> block = block_future.get();
     if (!block->status().ok()) {
       return block->status();
     }
-- 
2.43.0


From e840187e26522de9b036fa3f8b8462708c31979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 35/43] fix: recompute the derivatives after a small first step
 of the constant

With targets around 1e-4 and below, the search for the constant stopped after its first step, and
the tree was fitted to the derivatives from before that step. The constant was learned twice.
---
 src/loss_func/loss_func_pointwise.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index d92b24f..5a00276 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -84,7 +84,9 @@ void Pointwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
     delta_c = total.gradient_data.Score(0);
     *c += delta_c;
     ++k;
-  } while (fabs(delta_c) > kConvergenceThreshold && k < kMaxIterations);
+    // A small first step may still be large compared to the targets, so that the derivatives above
+    // have to be computed again with the constant it leads to.
+  } while ((k < 2 || fabs(delta_c) > kConvergenceThreshold) && k < kMaxIterations);
 
   if (progress) {
     *progress = PrepareProgressMessage(total.loss / weight_sum_);
-- 
2.43.0


From c9ad45dd950ba794338890462093e88bfcfc142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:49 +0000
Subject: [PATCH 36/43] fix: from_df heeds type_overrides for every column

---
 gbdt/_data_store.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..972a0f6 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -153,18 +153,22 @@ class DataLoader:
             raise ImportError('Please install numpy and pandas.')
 
         d = libgbdt.DataStore()
-        raw_float_cols = set([k for k, v in type_overrides.items()
-                              if v == 'float' or v == 'raw_float'])
-        string_cols = set([k for k, v in type_overrides.items()
-                           if v == 'string'])
-
-        for col in df.select_dtypes(include=[numpy.number]).keys():
-            if col in raw_float_cols:
-                d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
-                d.add_bucketized_float_col(col, list(df[col]))
-
-        for col in df.select_dtypes(exclude=[numpy.number]).keys():
-            d.add_string_col(col, list(df[col]))
+        numeric_cols = set(df.select_dtypes(include=[numpy.number]).keys())
+
+        for col in df.keys():
+            default = 'bucketized_float' if col in numeric_cols else 'string'
+            col_type = type_overrides.get(col, default)
+            values = list(df[col])
+            if col_type == 'string':
+                d.add_string_col(col, values if default == 'string' else [str(v) for v in values])
+            else:
+                if default == 'string':
+                    values = [float(v) for v in values]
+                if col_type == 'bucketized_float':
+                    d.add_bucketized_float_col(col, values)
+                elif col_type == 'float' or col_type == 'raw_float':
+                    d.add_raw_float_col(col, values)
+                else:
+                    raise ValueError("Unknown type '{}' of column '{}'.".format(col_type, col))
 
         return DataStore(d)
-- 
2.43.0


From 9f429712f184f380e79e5b7e8444e6e650841aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:49 +0000
Subject: [PATCH 37/43] fix: draw trees whose default fields are omitted or
 whose thresholds are infinite

---
 gbdt/_forest_visualizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbdt/_forest_visualizer.py b/gbdt/_forest_visualizer.py
index 50d8046..2bb17d8 100755
--- a/gbdt/_forest_visualizer.py
+++ b/gbdt/_forest_visualizer.py
@@ -32,21 +32,21 @@ class ForestVisualizer:
         return '{feature} {less_than} {threshold:.3f}'.format(
             less_than='<=*' if missingToRightChild else '*<=',
             feature=split['feature'],
-            threshold=split['floatSplit']['threshold'])
+            threshold=float(split['floatSplit'].get('threshold', 0)))
 
     def __catSplit__(self, split):
         return '{feature} in {categories}'.format(
             feature=split['feature'],
-            categories='{' + ', '.join(split['catSplit']['category']) + '}')
+            categories='{' + ', '.join(split['catSplit'].get('category', [])) + '}')
 
     def __branchNodeLabel__(self, node):
         split = node['split']
 
         splitDescription = self.__floatSplit__(split) if 'floatSplit' in split else self.__catSplit__(split)
-        return splitDescription + '\\n{0: .6f}'.format(node['score'])
+        return splitDescription + '\\n{0: .6f}'.format(float(node.get('score', 0)))
 
     def __leafNodeLabel__(self, node):
-        return '{0:.6f}'.format(node['score'])
+        return '{0:.6f}'.format(float(node.get('score', 0)))
 
     def __nodeLabel__(self, node):
         if 'leftChild' in node:
-- 
2.43.0


From 705844da5a54b776f107e4d5132def2812a296b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:59 +0000
Subject: [PATCH 38/43] fix: forget earlier data when a loss function is
 initialized again

---
 src/loss_func/loss_func_pairwise.cc  | 3 +++
 src/loss_func/loss_func_pointwise.cc | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b29d73..3462ccf 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -89,6 +89,9 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     }
   }
 
+  // Nothing may be left of earlier data when a loss function is initialized again.
+  groups_.clear();
+  initial_loss_ = -1;
   groups_.reserve(groups.size());
   for (auto& group : groups) {
     groups_.emplace_back(std::move(group), y);
diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index 5a00276..25244b4 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -41,6 +41,7 @@ Status Pointwise::Init(int num_rows, FloatVector w, FloatVector y, const StringC
   w_ = w;
   y_ = y;
   weight_sum_ = 0;
+  initial_loss_ = -1;
   for (int i = 0; i < num_rows; ++i) {
     weight_sum_ += w(i);
   }
-- 
2.43.0


From b37e26e4391ed9bf56ae1246d8162609021b23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:42 +0000
Subject: [PATCH 39/43] fix: declare the converted columns bucketized_floats,
 the type the loader knows

---
 scripts/convert_tsv_to_filatfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_tsv_to_filatfiles.py b/scripts/convert_tsv_to_filatfiles.py
index 5cd1373..fbc74e9 100644
--- a/scripts/convert_tsv_to_filatfiles.py
+++ b/scripts/convert_tsv_to_filatfiles.py
@@ -14,7 +14,7 @@ def CreateWriters(output_flatfiles_dir, header, raw_float_columns, string_column
         elif string_columns and column in string_columns:
             print >>writers[i], '# dtype=strings'
         else:
-            print >>writers[i], '# dtype=binned_floats'
+            print >>writers[i], '# dtype=bucketized_floats'
     print '\n'.join(['Writing to %s' % flatfile for flatfile in flatfiles])
     return writers
 
-- 
2.43.0


From f5521076a0c66bf583280b9643bd0cd1418434db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:42 +0000
Subject: [PATCH 40/43] fix: bag with the weight_column of the configuration
 and count blank cells as rows

---
 scripts/bagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bagged.py b/scripts/bagged.py
index ef39323..276391b 100755
--- a/scripts/bagged.py
+++ b/scripts/bagged.py
@@ -33,7 +33,7 @@ class Bagging:
         flatfiles = os.listdir(self._opts.flatfiles_dir)
         flatfile = os.path.join(self._opts.flatfiles_dir, flatfiles[0])
         self._opts.num_rows = len(
-            [line for line in open(flatfile).readlines() if not line.startswith('#') and line.strip()])
+            [line for line in open(flatfile).readlines() if not line.startswith('#')])
 
     def bagDir(self, k):
         return '{0}/bag_{1}'.format(self._opts.output_dir, k)
@@ -77,7 +77,7 @@ class Bagging:
         except:
             pass
 
-        self._opts.config['data_config']['sample_weight_column'] = 'bagging_weights'
+        self._opts.config['weight_column'] = 'bagging_weights'
         print >>open(os.path.join(bagging_dir, 'bagging.config'), 'w'), json.dumps(self._opts.config)
         # First prepair a weight flatfile for the bag.
         weights = ['# dtype=raw_floats'] + [str(int(self.inBag(i, k))) for i in xrange(self._opts.num_rows)]
-- 
2.43.0


From df89283ab4cd78de9e84220670aeb81358bb65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:42 +0000
Subject: [PATCH 41/43] fix: average counts over groups as fractions and end
 the last group with or without a newline

---
 scripts/compute_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/compute_metrics.py b/scripts/compute_metrics.py
index 96cba78..748dfdb 100755
--- a/scripts/compute_metrics.py
+++ b/scripts/compute_metrics.py
@@ -29,7 +29,7 @@ def ReadFlatFile(f):
     for line in open(f):
         if line.startswith('#'):
             continue
-        yield line
+        yield line.rstrip('\r\n')
 
 def ReadByGroup(opts):
     group_file = ReadFlatFile(opts.group_file)
@@ -82,7 +82,7 @@ def main():
 
     keys = sorted(metrics.keys())
     for k in keys:
-        print '%s=%.4f' % (k, metrics[k] / (numGroups + 1))
+        print '%s=%.4f' % (k, float(metrics[k]) / (numGroups + 1))
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From 9c781cc6c7ba4af4307d771b7aadb05574785015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:42 +0000
Subject: [PATCH 42/43] fix: draw the side of missing values, and trees whose
 default fields are omitted

---
 scripts/draw_trees.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/draw_trees.py b/scripts/draw_trees.py
index 496e93c..60922ac 100755
--- a/scripts/draw_trees.py
+++ b/scripts/draw_trees.py
@@ -17,19 +17,19 @@ def branchNodeToString(node):
     split = node['split']
     if 'floatSplit' in split:
         return '{feature} {less_than} {threshold:.3f} \\n{score:.6f}'.format(
-            less_than='<=*' if 'missingToRightChild' in split['floatSplit'] else '*<=',
+            less_than='<=*' if split['floatSplit'].get('missingToRightChild') else '*<=',
             feature=split['feature'],
-            threshold=split['floatSplit']['threshold'],
-            score=node['score'])
+            threshold=float(split['floatSplit'].get('threshold', 0)),
+            score=float(node.get('score', 0)))
     elif 'catSplit' in split:
         return '{feature} in {categories}'.format(
             feature=split['feature'],
-            categories=str(split['catSplit']['category']))
+            categories=str(split['catSplit'].get('category', [])))
     else:
         raise
 
 def leafNodeToString(node):
-    return '{0:.6f}'.format(node['score'])
+    return '{0:.6f}'.format(float(node.get('score', 0)))
 
 def traverse(tree, node_name):
     buffer = ''
-- 
2.43.0


From 7b05fc012447454fe6ef2f6db88a300ec2d0648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:04 +0000
Subject: [PATCH 43/43] fix: refuse numbers followed by a NUL byte

---
 src/utils/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index aec2cdc..175cbb1 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -85,7 +85,8 @@ vector<string> split(const string& s, const string& delim) {
 bool StringCast(const string& s, float* v) {
     char* pEnd;
     *v = strtof(s.c_str(), &pEnd);
-    return *pEnd == '\0' && s.size() != 0;
+    // A NUL inside does not end a number.
+    return pEnd == s.c_str() + s.size() && s.size() != 0;
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-- 
2.43.0

