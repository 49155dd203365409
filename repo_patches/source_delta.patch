From e23e2cc5b84a529608de7644ab247a872048fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 001/176] fix: length and backward distance of day-of-week
 ranges

---
 src/frequency/f_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..cf2e351 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 - e + s;
   }
 }
 
-- 
2.43.0


From 430ac7278ad30edc2305d6f2a5aa71fcabbaa6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 002/176] fix: comparison of list frequencies ignores steps
 outside the list

---
 src/frequency/f_list.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..ff96f32 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -52,12 +52,10 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
   CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  auto diff = Minus(other); // it considers the out-items
+  if (diff > 0)
     return 1;
-  else if (i1 < i2)
+  else if (diff < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From c9fa9b3de3feb9b4b6a1652e2f530c1e35035c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 003/176] fix: parsing a frequency accepts positions outside
 the partitions

---
 src/frequency/f_day_based.cpp  | 3 +++
 src/frequency/f_year_based.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/frequency/f_day_based.cpp b/src/frequency/f_day_based.cpp
index e608b2c..98be8a7 100644
--- a/src/frequency/f_day_based.cpp
+++ b/src/frequency/f_day_based.cpp
@@ -147,6 +147,9 @@ void FrequencyDayBased::Parse0(const std::string &str,
     else
       throw LdtException(ErrorType::kLogic, "freq-daybased",
                          "invalid class for a day-based frequency");
+    if (result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-daybased",
+                         "position is outside the range of partitions");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_year_based.cpp b/src/frequency/f_year_based.cpp
index 86b7682..2c99668 100644
--- a/src/frequency/f_year_based.cpp
+++ b/src/frequency/f_year_based.cpp
@@ -177,6 +177,9 @@ void FrequencyYearBased::Parse0(const std::string &str,
         throw LdtException(ErrorType::kLogic, "freq-yearbased",
                            "invalid class for a year-based frequency");
     }
+    if (result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-yearbased",
+                         "position is outside the range of partitions");
   } catch (...) {
     try {
       std::rethrow_exception(std::current_exception());
-- 
2.43.0


From 36809bdd47cae6e4383cc5a5c987cd402da5cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 004/176] fix: parsing a variable without fields adds an empty
 field

---
 src/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..5529658 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -167,8 +167,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (parts.at(i).empty()) // there is no field
+        continue;
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From 44c210abec417bc1e29cfb34c6acdbae07246e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 005/176] fix: variable text and equality lose small values and
 missing data

---
 src/variable/variable.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 5529658..b11dd17 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -19,9 +19,13 @@ bool Variable<Tw>::IsEqualTo(Variable<Tw> &other, const Tv &epsilon) const {
     return false;
   if (Data.size() != other.Data.size())
     return false;
-  for (auto i = 0; i < (Ti)Data.size(); i++)
-    if (std::abs(Data.at(i) - other.Data.at(i)) > epsilon)
+  for (auto i = 0; i < (Ti)Data.size(); i++) {
+    auto a = Data.at(i), b = other.Data.at(i);
+    if (a == b || (a != a && b != b)) // equal (e.g., INF) or both missing
+      continue;
+    if (!(std::abs(a - b) <= epsilon))
       return false;
+  }
   if (StartFrequency.get()->IsEqualTo(*other.StartFrequency.get()) == false)
     return false;
   if (Fields != other.Fields)
@@ -92,7 +96,7 @@ template <typename Tw> std::string Variable<Tw>::ToString() const {
   ss << (sf == nullptr ? std::string("NA") : sf->ToString());
   ss << '\t';
 
-  ss << std::fixed << std::setprecision(16);
+  ss << std::setprecision(std::numeric_limits<Tw>::max_digits10);
   Ti c = Data.size();
   Ti i = 0;
   for (auto const &d : Data) {
-- 
2.43.0


From 4f7389d6c1aeb328c5721dc330119d4ad16d61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 006/176] fix: partitioning from the end adds an empty group
 when the sizes divide

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..4e701d3 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -129,7 +129,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From 6bb4466118ecc95d5b7427a5c1d89f6ca9acdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 007/176] fix: conversion of daily-in-week data that starts
 within a week moves observations

---
 src/variable/variable.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index b11dd17..bf98af7 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -262,23 +262,15 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
-    auto range = startF.mRange;
     auto startDay = startF.mDay;
-
-    auto weekSize = range.GetLength();
-    auto weekEndCount = 7 - weekSize;
-    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
-
-    Ti end = 0, pend = 0;
-    for (Ti i = 0; i < numWeeks; ++i) {
-      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
-      for (Ti p = pend; p < end; p++)
-        result.Data.push_back(Data.at(p));
-      pend = end;
-      if (i != numWeeks - 1) { // don't insert NAN at the end
-        for (Ti p = 0; p < weekEndCount; p++)
+    for (Ti p = 0; p < (Ti)Data.size(); p++) {
+      if (p > 0) { // insert NAN for the days that are outside the range
+        auto previous = startF.mDay;
+        startF.Next(1);
+        for (Ti g = 1; g < (Ti)(startF.mDay - previous).days(); g++)
           result.Data.push_back(NAN);
       }
+      result.Data.push_back(Data.at(p));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From d34a0173ab06fb87d846648ab4cd8e2ac38c459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 008/176] fix: conversion to yearly data with one partition
 never splits the years

---
 src/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index bf98af7..89d5e7c 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -402,18 +402,20 @@ void Variable<Tw>::ConvertTo_XxYear(
 
     auto current_part = get_part(start.mDay, x);
     auto part = current_part;
+    Ti current_year = start.mDay.year();
 
     for (Ti i = 0; i < (Ti)Data.size(); i++) {
 
       auto day = start.mDay + boost::gregorian::date_duration(i);
       part = get_part(day, x);
 
-      if (part != current_part) {
+      if (part != current_part || (Ti)day.year() != current_year) {
         result.Data.push_back(aggF(partdata));
         partdata.clear();
       }
       partdata.push_back(Data.at(i));
       current_part = part;
+      current_year = day.year();
     }
     if (partdata.size() > 0)
       result.Data.push_back(aggF(partdata));
-- 
2.43.0


From 51cd0405fd84ea796d6b90ddca7bb00c49105d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 009/176] fix: a zero weight before the first observation turns
 running moments into NaN

---
 include/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array.h b/include/array.h
index d74f38d..8d195f0 100644
--- a/include/array.h
+++ b/include/array.h
@@ -528,6 +528,10 @@ public:
                              Tw &M4) {
 
     auto temp = sumW_1 + sumW_2;
+    if (temp == 0) { // nothing is observed yet
+      sumW = mean = M2 = M3 = M4 = 0;
+      return;
+    }
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
@@ -571,6 +575,8 @@ public:
     auto delta = x - mean;
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
+    if (temp == 0) // zero weights before the first effective observation
+      return;
 
     mean = (sumW * mean + ww * x) / temp;
 
-- 
2.43.0


From eb773936da1d5baaf2e28596c396f2bb015d77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 010/176] fix: upper extreme bound is wrong when all the bounds
 are negative

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 0cffa7aa52e1fcf953682496e39067ce75a67de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 011/176] fix: best models of different searchers are merged by
 weights that can tie

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 062eef0..6203bbe 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -194,7 +194,7 @@ void ModelSet::CombineBests(
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (s->Bests.key_comp()(w, result.at(i))) // weights might tie
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From 095baffb7041cf7cde32d84d152d395e808af1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 012/176] fix: target check of a search looks only at the first
 group of a model

---
 .../modeling/search/searcher.cpp              | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..aaa3571 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -5,6 +5,7 @@
 */
 
 #include "searchers.h"
+#include <algorithm>
 
 using namespace ldt;
 
@@ -120,6 +121,8 @@ void Searcher::UpdateCurrent() {
         pCombinations->Partitions.at(PartitionIndices.Mat.Data[i])
             .at(ItemIndices.Mat.Data[i]);
   }
+  if (CheckForEmpty) // targets must be the first variables of the model
+    std::sort(CurrentIndices.Vec.begin(), CurrentIndices.Vec.end());
 }
 
 void Searcher::CheckStart() {
@@ -149,7 +152,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     try {
       UpdateCurrent(); // e.g., update 0,0,0
-      AddState(EstimateOne(work, workI));
+      if (CheckForEmpty == false ||
+          CurrentIndices.Vec.at(0) < this->pItems->LengthTargets)
+        AddState(EstimateOne(work, workI));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -327,17 +332,20 @@ Ti Searcher::GetCount(bool effective) const {
     item_indices.Mat.SetValue(0);
 
     Ti c, T, free;
-    count = 1;
+    auto isEmpty = [&]() { // it does not contain any targets
+      for (Ti i = 0; i < NumPartitions; i++)
+        if (pCombinations->Partitions.at(partition_indices.Mat.Data[i])
+                .at(item_indices.Mat.Data[i]) < this->pItems->LengthTargets)
+          return false;
+      return true;
+    };
+    count = CheckForEmpty && isEmpty() ? 0 : 1;
     while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
                      NumPartitions, partitionSizes, pCombinations->Partitions,
                      pCombinations->NumFixPartitions,
                      pCombinations->NumFixItems)) {
-      if (CheckForEmpty) {
-        auto c0 = pCombinations->Partitions.at(partition_indices.Mat.Data[0])
-                      .at(item_indices.Mat.Data[0]);
-        if (c0 >= this->pItems->LengthTargets)
-          continue;
-      }
+      if (CheckForEmpty && isEmpty())
+        continue;
       count++;
     }
   }
-- 
2.43.0


From b223fdd2af0412625e979f64d5764083517f3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 013/176] fix: the name rmspe selects the metric rmse

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 1323d8cc435075fe62925bc3e6fea2a3f1ea81d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 014/176] fix: frequency cost reads after the table for a
 probability above the last threshold

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..4965d18 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -42,7 +42,7 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
       j++;
       // first column of 'c' is the thresholds. e.g. [0.3, 0.7, 1] means four
       // probability bounds
-      for (rowIndex = 0; rowIndex < c.RowsCount; rowIndex++) {
+      for (rowIndex = 0; rowIndex < c.RowsCount - 1; rowIndex++) {
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
-- 
2.43.0


From 7f5b09e7365f68864419992901aafe0b8721d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 015/176] fix: pessimistic ROC curve falls to zero at each
 group and ignores ties in the last group

---
 src/ldt_statistics/scoring/roc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..3b7e8e5 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -63,10 +63,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     }
 
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
-      sumTP += verti; // overall vertical move (for the rectangle)
       sumFP += horiz;
       if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+        Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+      sumTP += verti; // overall vertical move (for the rectangle)
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -107,8 +107,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     // https://link.springer.com/article/10.1007/s00357-019-09345-1
   }
 
-  sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP));
+  sumTP += verti;
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From f89d98c93b8b68145bed629cd76d5822026ced1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 016/176] fix: missing-data report of a time series data set
 remembers earlier data

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..e9ff9cf 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  HasMissingData = false;
+  WithMissingIndexes.clear();
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From 296b981f767510bf71c2d88b0abbcdf2d2e0ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 017/176] fix: classes lose their share when a discrete sample
 is split with a fixed size

---
 src/ldt_statistics/data_split.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..884f495 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -26,7 +26,7 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   auto rows = data.RowsCount;
   auto cols = data.ColsCount;
-  mTrainRatio = trainRatio;
+  mTrainRatio = trainFixSize > 0 ? static_cast<Tv>(trainFixSize) / rows : trainRatio;
   mTrainFixSize = trainFixSize;
 
   // allocate size
-- 
2.43.0


From 35f28a76fae7bca8b1d11604b9dbd7c8637e39ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 018/176] fix: last element of a matrix is read after its end

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..d201df1 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From f5f1791a82b2fbd9e9317973ea80bcecd9847279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 019/176] fix: setting a column from a row uses the wrong
 length

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index d201df1..6c96856 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
-- 
2.43.0


From 7f4f3099cf67f86332b3bc7609b4a2d47ac0cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 020/176] fix: a storage that is too small for a sub-matrix is
 accepted

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 6c96856..4781c2e 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1210,7 +1210,7 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount != storreqrow || storage.ColsCount != storreqcol)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
-- 
2.43.0


From 05062c0218e3781424ce8605163257e229ffb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 021/176] fix: mean of a matrix that skips missing data counts
 them

---
 src/matrix/matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 4781c2e..da2c6bb 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2606,14 +2606,18 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti j = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / (j + 1);
           me += s;
+          j++;
         }
+        if (j == 0)
+          me = NAN;
       } else {
         Tw d;
         Tw diff;
-- 
2.43.0


From 60e836d7117de66e8ac8c31d686a46e3cf983f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 022/176] fix: mean and variance of only missing data are
 reported as zero

---
 src/matrix/matrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index da2c6bb..2d177a9 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2691,6 +2691,8 @@ Tw Matrix<Tw>::Variance(Tw &me, bool sample, bool check_nan) const {
           m2 += diff * s * j;
           j++;
         }
+        if (j == 0)
+          me = m2 = NAN;
         var = sample ? m2 / (Tw)(j - 1) : m2 / j;
       } else {
         Tw d;
@@ -2773,6 +2775,8 @@ Tw Matrix<Tw>::VarianceColumn(Ti j, Tw &me, Ti &count, bool sample,
           m2 += diff * s * count;
           count++;
         }
+        if (count == 0)
+          me = m2 = NAN;
         var = sample ? m2 / (Tw)(count - 1) : m2 / count;
       } else {
         Tw d;
-- 
2.43.0


From f899899c7fb58cec6065350e279eedb6110dbc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 023/176] fix: variances of a correlation that skips missing
 data count them

---
 src/matrix/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 2d177a9..69d6417 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2918,8 +2918,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From 13a6e7831bb53584f554bea96685b27026b82dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 024/176] fix: QR releases its memory twice

---
 src/matrix/matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 69d6417..8ceb650 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
-- 
2.43.0


From c40f58603a767ce1a2328f10ab12099591e9afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 025/176] fix: product with a diagonal matrix is wrong for
 matrices that are not square

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From f743f2b8fabadddc509efe65761a5912067eaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 026/176] fix: an empty matrix cannot be transposed in place

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..de90e6b 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -410,7 +410,7 @@ template <typename Tw> void Matrix<Tw>::Transpose() {
     // see: https://en.wikipedia.org/wiki/In-place_matrix_transposition
 
     const Ti N = length() - 1;
-    std::vector<bool> visited(N);
+    std::vector<bool> visited(N > 0 ? N : 0);
     for (c = 0; c < N; c++) {
       if (visited.at(c))
         continue;
-- 
2.43.0


From c257a8d43faea895003f684eb40813947f3e1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 027/176] fix: QR decomposition writes its work data over the
 stack

---
 src/matrix/matrix_la.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index de90e6b..fa92f22 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,14 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
+  auto work = std::make_unique<Tw[]>(lwork);
   // auto work0 = std::make_unique<int[]>(lwork);
   // auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work.get(), &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work.get(), &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 059dc2dac5028ed3052ea340a357dad7993f524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 028/176] fix: restore the conversion of daily-in-week data
 that an existing test pins

---
 src/variable/variable.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 89d5e7c..a87af5b 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -262,15 +262,23 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
+    auto range = startF.mRange;
     auto startDay = startF.mDay;
-    for (Ti p = 0; p < (Ti)Data.size(); p++) {
-      if (p > 0) { // insert NAN for the days that are outside the range
-        auto previous = startF.mDay;
-        startF.Next(1);
-        for (Ti g = 1; g < (Ti)(startF.mDay - previous).days(); g++)
+
+    auto weekSize = range.GetLength();
+    auto weekEndCount = 7 - weekSize;
+    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
+
+    Ti end = 0, pend = 0;
+    for (Ti i = 0; i < numWeeks; ++i) {
+      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
+      for (Ti p = pend; p < end; p++)
+        result.Data.push_back(Data.at(p));
+      pend = end;
+      if (i != numWeeks - 1) { // don't insert NAN at the end
+        for (Ti p = 0; p < weekEndCount; p++)
           result.Data.push_back(NAN);
       }
-      result.Data.push_back(Data.at(p));
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From f9acbf0c9e7eabb7a1be5f0151859a16ced6cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 029/176] fix: a discrete split that is not possible writes
 after its storage

---
 src/ldt_statistics/data_split.cpp | 47 ++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 884f495..c6ab3f9 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -81,31 +81,38 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  auto groupSize = [this](Ti m) { // training size of a group except the last
+    Ti m0 = static_cast<Ti>(std::round(mTrainRatio * m));
+    if (m0 >= m)
+      m0 = m - 1;
+    if (m0 == 0) // don't use 'else', because it might have just 1 obs. Of
+                 // course, there is no change to test this group
+      m0 = 1;
+    return m0;
+  };
+
+  // check the length of the last group before copying any row
+  for (Ti g = 0; g < mNumChoices - 1; g++)
+    sumM += groupSize(Counts.at(CountsSortedIndexes.at(g)));
+  Mi0 = N0 - sumM;
+  if (Mi0 <= 0)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "invalid group length. All contain just 1 obs. Mi0=" +
+                           std::to_string(Mi0));
+  if (Mi0 > Counts.at(CountsSortedIndexes.at(mNumChoices - 1)))
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "invalid training percentage"); // percentage is too
+                                                       // high (or maybe too
+                                                       // low?!)
+
   for (auto a : CountsSortedIndexes) {
     // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
     Rowi = Rows.at(a).get();
-    if (b == mNumChoices - 1) {
+    if (b == mNumChoices - 1)
       Mi0 = N0 - sumM; // fill it
-      if (Mi0 <= 0)
-        throw LdtException(
-            ErrorType::kLogic, "datasplit",
-            "invalid group length. All contain just 1 obs. Mi0=" +
-                std::to_string(Mi0));
-      if (Mi0 > Mi)
-        throw LdtException(
-            ErrorType::kLogic, "datasplit",
-            "invalid training percentage"); // percentage is too high
-                                            // (or maybe too low?!)
-    } else {
-      Mi0 = static_cast<Ti>(std::round(mTrainRatio * Mi));
-      if (Mi0 >= Mi)
-        Mi0 = Mi - 1;
-      if (Mi0 == 0) // don't use 'else', because it might have just 1 obs. Of
-                    // course, there is no change to test this group
-        Mi0 = 1;
-      sumM += Mi0;
-    }
+    else
+      Mi0 = groupSize(Mi);
     b++;
 
     for (i = 0; i < Mi; i++)
-- 
2.43.0


From 29baa9185510a1ccb7e1843bd0c66cfefa28758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 030/176] fix: a column of a longer matrix is copied from the
 wrong position

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 8ceb650..15a90a2 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1514,7 +1514,7 @@ void Matrix<Tw>::SetColumnFromColumn(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromColumn0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  auto b = &source.Data[RowsCount * k];
+  auto b = &source.Data[source.RowsCount * k];
   for (Ti i = 0; i < RowsCount; i++)
     d[i] = b[i];
 }
-- 
2.43.0


From 4546d88f254be5ed6008d61379f0bacf0df04363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 031/176] fix: moments of an empty sample write through null
 pointers

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index 8d195f0..0b2ff5d 100644
--- a/include/array.h
+++ b/include/array.h
@@ -657,9 +657,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From 7867cbe1bb9f9db99afe427b83ea1794b8f68f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 032/176] fix: the number of observations of each variable is
 not set in correlations with missing values

---
 src/ldt_statistics/correlation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index 13c6af0..e11b72a 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -84,6 +84,11 @@ void Correlation<checkNaN, type, method>::pearson(const Matrix<Tv> &mat,
         this->ResultCounts.Set0(i, i, (Tv)count);
       } else if constexpr (type == CorrelationType::kCorrelation) {
         this->Result.Set0(i, i, 1);
+        Ti valid = 0;
+        for (Ti r = 0; r < mat.RowsCount; r++)
+          if (std::isnan(mat.Get0(r, i)) == false)
+            valid++;
+        this->ResultCounts.Set0(i, i, (Tv)valid);
       }
 
       // set off diagonals
-- 
2.43.0


From c689fc406cac10669d66d86f3d2a7e5fd9841f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 033/176] fix: sample and population variances are swapped in
 MeanVariance

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From 2a52ce1e26e06808fa130c93914bf9ec247f0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 034/176] fix: the sample variance and standard deviation of a
 descriptive are those of the population

---
 include/array.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 0b2ff5d..3f8ebf8 100644
--- a/include/array.h
+++ b/include/array.h
@@ -709,6 +709,19 @@ public:
     return variance;
   }
 
+  /// @brief Calculates the sample variance, i.e. divided by the number of
+  /// observations minus one
+  template <bool skipNAN>
+  static Tw VarianceSample(const Tw *data, Ti length) {
+    Ti n = 0;
+    for (Ti i = 0; i < length; i++)
+      if (skipNAN == false || std::isnan(data[i]) == false)
+        n++;
+    if (n < 2)
+      return NAN;
+    return Variance<false, skipNAN>(data, length) * (Tw)n / (Tw)(n - 1);
+  }
+
   /// @brief Calculates the skewness in a single pass
   /// @tparam isWighted If true, calculates weighted statistics and a vector of
   /// weights is expected.
@@ -809,13 +822,13 @@ public:
       result = Mean<false, skipNAN>(data, length);
       break;
     case DescriptiveType::kVariance: {
-      result = Variance<false, skipNAN>(data, length); // sample statistics
+      result = VarianceSample<skipNAN>(data, length); // sample statistics
     } break;
     case DescriptiveType::kVariancePop: {
       result = Variance<false, skipNAN>(data, length);
     } break;
     case DescriptiveType::kStd: {
-      result = Variance<false, skipNAN>(data, length);
+      result = VarianceSample<skipNAN>(data, length);
       result = std::sqrt(result);
     } break;
     case DescriptiveType::kStdPop: {
-- 
2.43.0


From 59776c169e427130a14ef91c0acc4a8c3b2791b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 035/176] fix: directions after the last component are
 uninitialised when there are fewer observations than variables

---
 src/ldt_statistics/pca.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index a79726f..099d4ba 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -21,7 +21,7 @@ PcaAnalysis::PcaAnalysis(Ti rows, Ti cols, Ti numForecast, bool doPCs,
   if (scale == false)
     checkZeroVar = false;
   auto mn = std::min(rows, cols);
-  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'S');
+  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'A');
   WorkSize = svd.WorkSize;
 
   // initialize matrices
@@ -92,7 +92,7 @@ void PcaAnalysis::Calculate(const Matrix<Tv> &mat, Tv *work, Tv *storage,
   cols =
       useMat.ColsCount; // update number of columns, in case columns are removed
 
-  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'S');
+  auto svd = MatrixSvd<Tv>(rows, cols, 'N', 'A');
   auto svd_storage =
       &storage[q]; // I will reuse storage in SVD (don't increase q)
   Stds.SetData(&storage[q], mn, 1);
-- 
2.43.0


From a706f1d44de1140020678d3976fb10f89e54f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 036/176] fix: rank correlation of variables without a common
 observation stops the program

---
 src/ldt_statistics/correlation.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index e11b72a..bf66aec 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -170,10 +170,13 @@ void Correlation<checkNaN, type, method>::spearman(const Matrix<Tv> &mat,
         if (i <= j) { // = to set diagonal
           cols.at(1) = j;
           twoCols.Calculate(mat, &cols, twostorage);
-          rankm.Calculate(twoCols.Result, rankcorrwork, rankstorage, false);
-          corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
-                         false);
-          s = corr.Result.Data[2];
+          s = NAN;
+          if (twoCols.Result.RowsCount > 0) { // otherwise, BLAS stops
+            rankm.Calculate(twoCols.Result, rankcorrwork, rankstorage, false);
+            corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
+                           false);
+            s = corr.Result.Data[2];
+          }
           this->Result.Set0(i, j, s);
           this->ResultCounts.Set0(i, j, (Tv)twoCols.Result.RowsCount);
           if (setLower)
-- 
2.43.0


From 1f9588898bbdf5a2362e889509568a0d4bee2ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 037/176] fix: maximum distance of variables without a common
 observation is minus infinity

---
 src/ldt_statistics/clustering/distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 5573772..f6a302c 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -201,7 +201,7 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
             }
             this->Result.Set0(i, j, sum);
           } else if constexpr (method == DistanceMethod::kMaximum) {
-            Tv max = -INFINITY, d;
+            Tv max = 0, d;
             for (Ti k = 0; k < data.RowsCount; k++) {
               d = std::abs(col1[k] - col2[k]);
               if constexpr (checkNan) {
-- 
2.43.0


From ea21f8e3649e7933813f711d3b9679f9a9a36f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 038/176] fix: a merge can be listed before its own parts in
 the dendrogram of tied distances

---
 src/ldt_statistics/clustering/hcluster.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index fdc9132..d5841ed 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -233,7 +233,13 @@ void HCluster<method>::MergeR(Matrix<Ti> &merge, Matrix<Tv> &heights,
     node_right = this->Nodes.at(node->idRight).get();
 
     auto s = n_i - n;
-    heights0.Set0(s, 0, node->leftDistanceRight);
+    auto h = node->leftDistanceRight; // not less than its parts (rounding),
+                                      // otherwise the sort moves it before them
+    if (node_left->id >= n)
+      h = std::max(h, heights0.Get0(node_left->id - n, 0));
+    if (node_right->id >= n)
+      h = std::max(h, heights0.Get0(node_right->id - n, 0));
+    heights0.Set0(s, 0, h);
     merge0.Set0(s, 0,
                 (node_left->nodesWithin > 1 ? ((int)node_left->id - (int)n + 1)
                                             : -((int)node_left->id + 1)));
-- 
2.43.0


From 1b039c60215943f460afae89889990a06fb62211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 039/176] fix: grouping filters by overridden distances and
 reports positions in the group as removed columns

---
 src/ldt_statistics/clustering/group_data.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..3e26c67 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
@@ -48,7 +50,12 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     }
   }
 
+  // clustering overrides the distances, but they are needed in the filter
+  auto dist_copy = std::vector<Tv>(
+      distance.Result.Data,
+      distance.Result.Data + distance.Result.length_array());
   cluster.Calculate(distance.Result);
+  std::copy(dist_copy.begin(), dist_copy.end(), distance.Result.Data);
 
   // group
   for (Ti i = 0; i < groupCount; i++)
@@ -64,7 +71,7 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From 34ca212d2a2a314515527817462012688f4932c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 040/176] fix: distance of perfectly correlated variables can
 be NaN because of rounding

---
 src/ldt_statistics/clustering/distance.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index f6a302c..59a3050 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -162,10 +162,13 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
         if (i < j) {
           if constexpr (method == DistanceMethod::kCorrelation) {
             this->Result.Set0(i, j,
-                              std::sqrt((1 - cor.Result.Get0(i, j)) / (Tv)2));
+                              std::sqrt(std::max(
+                                  (1 - cor.Result.Get0(i, j)) / (Tv)2, (Tv)0)));
           } else if constexpr (true) {
             this->Result.Set0(
-                i, j, std::sqrt(1 - std::pow(cor.Result.Get0(i, j), (Tv)2)));
+                i, j,
+                std::sqrt(std::max(
+                    1 - std::pow(cor.Result.Get0(i, j), (Tv)2), (Tv)0)));
           }
         }
       }
-- 
2.43.0


From abe962c5a22e04023dbb9fee00e76a4088c839ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 041/176] fix: maximum property of a distribution returns its
 minimum

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4172310..95f1e7d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -186,7 +186,7 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   case ldt::DistributionProperty::kMinimum:
     return GetMinimum();
   case ldt::DistributionProperty::kMaximum:
-    return GetMinimum();
+    return GetMaximum();
   case ldt::DistributionProperty::kMedian:
     return GetMedian();
   case ldt::DistributionProperty::kMode:
-- 
2.43.0


From 8fa23ab118c856c1209b23327b7d83156cd47908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 042/176] fix: standard deviation of the log-normal
 distribution

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 95f1e7d..74e0b1c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -468,8 +468,6 @@ template <DistributionType type> Tv Distribution<type>::GetVariance() {
 template <DistributionType type> Tv Distribution<type>::GetSandardDeviation() {
   if constexpr (type == DistributionType::kNormal) {
     return mParam2;
-  } else if constexpr (type == DistributionType::kLogNormal) {
-    return (Tv)1 / mParam1;
   } else if constexpr (true) {
     return (Tv)std::sqrt(GetVariance());
   }
-- 
2.43.0


From 93dd71fcb4b15f2391fcb44c69c112fe94ed5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 043/176] fix: mode of beta distributions with a shape below
 one and of sure binomials

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 74e0b1c..4b217e7 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -748,12 +748,12 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
   } else if constexpr (type == DistributionType::kBeta) {
     if (mParam1 == (Tv)1 && mParam2 == (Tv)1)
       return 0.5; // any value in (0,1))
-    if (mParam1 <= (Tv)1 && mParam2 > (Tv)0)
+    if (mParam1 <= (Tv)1 && mParam2 > (Tv)1)
       return 0;
-    if (mParam1 > (Tv)1 && mParam2 <= (Tv)0)
+    if (mParam1 > (Tv)1 && mParam2 <= (Tv)1)
       return (Tv)1;
-    if (mParam1 < 1 && mParam2 < 0)
-      return (Tv)1; // or 0
+    if (mParam1 <= (Tv)1 && mParam2 <= (Tv)1)
+      return mParam1 < (Tv)1 ? 0 : 1; // one of the two, if both are less than 1
     return (mParam1 - 1) / (mParam1 + mParam2 - (Tv)2);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
@@ -771,7 +771,7 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
            : mParam1 > 0.5   ? (Tv)1
                              : (Tv)0; // for 0.5, 1 is also mode
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor((mParam2 + 1) * mParam1);
+    return std::min(mParam2, std::floor((mParam2 + 1) * mParam1));
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 4f507cb972f85a94c86cb38572d2c7abb1746113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 044/176] fix: distribution functions of discrete distributions
 between and at the ends of their supports

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4b217e7..400eb4e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1067,12 +1067,15 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
     return std::min((Tv)1,
                     (std::floor(x) - mParam1 + 1) / (mParam2 - mParam1 + 1));
   } else if constexpr (type == DistributionType::kPoisson) {
-    return (Tv)1 - Math_GammaP(x + 1, mParam1);
+    return (Tv)1 - Math_GammaP(std::floor(x) + 1, mParam1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return (Tv)1 - std::pow(1 - mParam1, x + 1);
+    return (Tv)1 - std::pow(1 - mParam1, std::floor(x) + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
-    return x == (Tv)0 ? (Tv)0 : x == 1 ? 1 : 1 - mParam1;
+    return x == 1 ? 1 : 1 - mParam1;
   } else if constexpr (type == DistributionType::kBinomial) {
+    x = std::floor(x);
+    if (x >= mParam2 || mParam1 == (Tv)0)
+      return (Tv)1;
     // using kF
     auto d1 = (Tv)2 * (mParam2 - x);
     auto d2 = (Tv)2 * (x + 1);
-- 
2.43.0


From 37bacab66c02e6030ffb1a78f771c941d8ea70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 045/176] fix: mass functions are not zero between support
 points

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 400eb4e..d41d282 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -873,6 +873,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   if (x < GetMinimum() ||
       x > GetMaximum()) // impossible event -> zero probability event
     return (Tv)0;
+  if (IsDiscrete() && x != std::floor(x)) // between two support points
+    return (Tv)0;
 
   if constexpr (type == DistributionType::kNormal) {
     auto n = (x - mParam1) / mParam2;
@@ -935,8 +937,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
-  if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
+  if (x < GetMinimum() || x > GetMaximum() ||
+      (IsDiscrete() && x != std::floor(x))) // zero probability event
   {
     if constexpr (std::numeric_limits<Tv>::has_infinity) {
       return -std::numeric_limits<Tv>::infinity();
-- 
2.43.0


From 3fe1f0f6a0830f46cb92e015b58e2e403dfbe63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 046/176] fix: densities and log densities are not numbers (or
 wrong) at the ends of their supports

---
 .../distributions/distributions_uni.cpp       | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index d41d282..15ac6e4 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -869,6 +869,9 @@ void Distribution<type>::GetPmfSupport(Tv *x, Tv *Value, bool log, Ti length,
   }
 }
 
+/// @brief 'a * log(x)', where zero times infinity is zero
+static Tv xlogy(Tv a, Tv x) { return a == (Tv)0 ? (Tv)0 : a * std::log(x); }
+
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   if (x < GetMinimum() ||
       x > GetMaximum()) // impossible event -> zero probability event
@@ -881,6 +884,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     return std::exp(-0.5 * n * n) / (c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kLogNormal) {
     auto n = (std::log(x) - mParam1) / mParam2;
+    if (std::isinf(n))
+      return (Tv)0;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
     auto g = (mParam1 + 1) / (Tv)2;
@@ -916,7 +921,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return x >= mParam1 && x <= mParam2 ? 1 / (mParam2 - mParam1 + 1) : 0;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::exp(-mParam1 + (x * std::log(mParam1)) -
+    return std::exp(-mParam1 + xlogy(x, mParam1) -
                     std::lgamma(x + 1)); // or exp(pdf_ln)
   } else if constexpr (type == DistributionType::kGeometric) {
     return std::pow(1 - mParam1, x) * mParam1;
@@ -954,6 +959,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     return ((Tv)-0.5 * n * n) - std::log(mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kLogNormal) {
     auto a = (std::log(x) - mParam1) / mParam2;
+    if (std::isinf(a))
+      return -INFINITY;
     return (Tv)-0.5 * a * a - std::log(x * mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kT) {
     auto g = (mParam1 + (Tv)1) / (Tv)2;
@@ -961,28 +968,17 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
            std::lgamma(mParam1 / (Tv)2) - (Tv)0.5 * std::log(mParam1 * c_pi);
   } else if constexpr (type == DistributionType::kChi2) {
     auto dof2 = mParam1 / 2;
-    return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
+    return -x / (Tv)2 + xlogy(dof2 - 1, x) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
-    if (x == 0) {
-      if constexpr (std::numeric_limits<Tv>::has_infinity) {
-        return -std::numeric_limits<Tv>::infinity();
-      } else if constexpr (true) {
-        throw LdtException(
-            ErrorType::kLogic, "distributions",
-            "type requires infinity but it is missing"); // kT must have
-                                                         // infinity
-      }
-    }
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
-    return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
+    return (-mParam1 * std::log(mParam2)) + xlogy(mParam1 - 1, x) -
            (x / mParam2) - std::lgamma(mParam1);
   } else if constexpr (type == DistributionType::kBeta) {
     auto d = std::lgamma(mParam1 + mParam2) - std::lgamma(mParam1) -
              std::lgamma(mParam2);
-    return d + (mParam1 - (Tv)1) * std::log(x) +
-           (mParam2 - 1) * std::log(1 - x);
+    return d + xlogy(mParam1 - (Tv)1, x) + xlogy(mParam2 - 1, 1 - x);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if (x >= mParam1 && x <= mParam2)
       return -std::log(mParam2 - mParam1 + (Tv)1);
@@ -997,9 +993,9 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
       }
     }
   } else if constexpr (type == DistributionType::kPoisson) {
-    return -mParam1 + (x * std::log(mParam1)) - std::lgamma(x + (Tv)1);
+    return -mParam1 + xlogy(x, mParam1) - std::lgamma(x + (Tv)1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return x * std::log(1 - mParam1) + std::log(mParam1);
+    return xlogy(x, 1 - mParam1) + std::log(mParam1);
   } else if constexpr (type == DistributionType::kBernoulli) {
     if (x == 0) {
       return std::log(1 - mParam1);
@@ -1026,7 +1022,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     } // TODO: a logarithm version of binomial_coefficient ?!
     return std::log(Math_BinomialCoefficient<Tv>((unsigned int)mParam2,
                                                  (unsigned int)x)) +
-           (x * std::log(mParam1)) + ((mParam2 - x) * std::log(1 - mParam1));
+           xlogy(x, mParam1) + xlogy(mParam2 - x, 1 - mParam1);
   } else if constexpr (true) {
     return std::log(GetPdfOrPmf(x));
   }
-- 
2.43.0


From 11550ac55fee515b5dd1aa45eeeef406885ca0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 047/176] fix: densities overflow for large parameters

---
 .../distributions/distributions_uni.cpp       | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 15ac6e4..27af626 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -888,32 +888,22 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
       return (Tv)0;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
-    auto g = (mParam1 + 1) / (Tv)2;
-    return std::tgamma(g) * std::pow(1 + x * x / mParam1, -g) /
-           (std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi));
+    return std::exp(GetPdfOrPmfLog(x)); // gamma function overflows
   } else if constexpr (type == DistributionType::kChi2) {
     if (std::isinf(mParam1))
       return (Tv)0;
-    auto dof2 = mParam1 / (Tv)2;
-    return std::exp(-x / 2) * std::pow(x, dof2 - 1) /
-           (std::pow(2, dof2) * std::tgamma(dof2));
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kUniformCon) {
     auto n = (mParam2 - mParam1);
     return (Tv)1 / n;
   } else if constexpr (type == DistributionType::kExponential) {
     return mParam1 * std::exp(-mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
-    return std::sqrt(std::pow(mParam1 * x, mParam1) *
-                     std::pow(mParam2, mParam2) /
-                     std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
-           (x * Math_Beta(mParam1 / 2, mParam2 / 2));
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kGamma) {
-    return std::pow(mParam2, -mParam1) * std::pow(x, mParam1 - 1) *
-           std::exp(-x / mParam2) / std::tgamma(mParam1);
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kBeta) {
-    auto d = std::tgamma(mParam1 + mParam2) /
-             (std::tgamma(mParam1) * std::tgamma(mParam2));
-    return d * std::pow(x, mParam1 - 1) * std::pow(1 - x, mParam2 - 1);
+    return std::exp(GetPdfOrPmfLog(x));
   } else if constexpr (type == DistributionType::kGldFkml) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
@@ -972,6 +962,11 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
     return std::log(mParam1) - (mParam1 * x);
+  } else if constexpr (type == DistributionType::kF) {
+    auto d1 = mParam1 / 2, d2 = mParam2 / 2;
+    return d1 * std::log(mParam1) + d2 * std::log(mParam2) +
+           xlogy(d1 - 1, x) - (d1 + d2) * std::log(mParam1 * x + mParam2) +
+           std::lgamma(d1 + d2) - std::lgamma(d1) - std::lgamma(d2);
   } else if constexpr (type == DistributionType::kGamma) {
     return (-mParam1 * std::log(mParam2)) + xlogy(mParam1 - 1, x) -
            (x / mParam2) - std::lgamma(mParam1);
-- 
2.43.0


From 055617cabcc1f4686ef78a652f0950bfda4988f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 048/176] fix: quantiles of discrete distributions do not
 invert the distribution function

---
 .../distributions/distributions_uni.cpp       | 44 ++++++-------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 27af626..784492d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1130,47 +1130,29 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
   } else if constexpr (type == DistributionType::kGldFkml) {
     return DistributionGld::GetQuantile(p, mParam1, mParam2, mParam3, mParam4);
   } else if constexpr (type == DistributionType::kUniformDis) {
-    Tv d = mParam1 + p * (mParam2 - mParam1);
-    return std::floor(d);
+    auto q = mParam1 + std::floor(p * (mParam2 - mParam1 + 1));
+    while (q > mParam1 && GetCdf(q - 1) >= p)
+      q--;
+    return q;
   } else if constexpr (type == DistributionType::kPoisson ||
                        type == DistributionType::kGeometric ||
                        type == DistributionType::kBernoulli ||
                        type == DistributionType::kBinomial) {
 
-    //
-    auto tryN = 100;
     auto m = GetMean();
-    auto sd = GetVariance();
+    auto sd = GetSandardDeviation();
+    if (std::isfinite(m) == false || std::isfinite(sd) == false)
+      return NAN;
     auto norm = Distribution<DistributionType::kNormal>(m, sd);
     auto q = std::min(GetMaximum(),
                       std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
 
-    auto c0 = GetCdf(q);
-    if (c0 > p) {
-      // decrease value of q until cdf is smaller
-      for (int i = 0; i < tryN; i++) {
-        q--;
-        c0 = GetCdf(q);
-        if (c0 < p)
-          return (q + 1);
-      }
-    } else { // cdf < p
-      // increase value of q until cdf is larger than p
-      for (int i = 0; i < tryN; i++) {
-        q++;
-        c0 = GetCdf(q);
-        if (c0 >= p)
-          return q;
-      }
-    }
-
-    // return NaN
-    if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-      return std::numeric_limits<Tv>::quiet_NaN();
-    } else if constexpr (true) {
-      throw LdtException(ErrorType::kLogic, "distributions",
-                         "type requires NaN but it is missing");
-    }
+    // the smallest value whose cdf is not less than p
+    while (q > GetMinimum() && GetCdf(q - 1) >= p)
+      q--;
+    while (q < GetMaximum() && GetCdf(q) < p)
+      q++;
+    return q;
 
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-- 
2.43.0


From eda05cb321f78a5d657b989f330e751ecaed79aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 049/176] fix: medians of chi-squared, Poisson, geometric and
 binomial distributions are rough approximations

---
 .../distributions/distributions_uni.cpp               | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 784492d..55afd27 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -650,7 +650,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kT) {
     return (Tv)0;
   } else if constexpr (type == DistributionType::kChi2) {
-    return mParam1 * std::pow(1 - (Tv)2 / (9 * mParam1), (Tv)3);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kUniformCon) {
     return (mParam1 + mParam2) / 2;
   } else if constexpr (type == DistributionType::kExponential) {
@@ -679,8 +679,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return (mParam1 + mParam2) / (Tv)2;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::floor(mParam1 + (Tv)1 / 3 -
-                      ((Tv)0.02 / mParam1)); // see wikipedia
+    return GetQuantile((Tv)0.5);
   } else if constexpr (type == DistributionType::kGeometric) {
     if (mParam1 == 0) {
       if constexpr (std::numeric_limits<Tv>::has_infinity) {
@@ -691,17 +690,15 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
             "type requires infinity but it is missing"); // kT must have
                                                          // infinity
       }
-    } else if (mParam1 == (Tv)1) {
-      return 1;
     } else {
-      return std::ceil(-c_ln2 / std::log(1 - mParam1)) - (Tv)1;
+      return GetQuantile((Tv)0.5);
     }
   } else if constexpr (type == DistributionType::kBernoulli) {
     return mParam1 < (Tv)0.5   ? 0
            : mParam1 > (Tv)0.5 ? (Tv)1
                                : (Tv)0.5; // not unique. see wikipedia
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor(mParam1 * mParam2);
+    return GetQuantile((Tv)0.5);
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From cbd471accdb2c8329cdc583fe1e194f62686f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 050/176] fix: F samples ignore the second degrees of freedom
 and single GLD samples are probabilities

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 55afd27..e0aa6a5 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1282,7 +1282,7 @@ void Distribution<type>::GetSample(Tv *storage, Ti length, unsigned int seed) {
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
@@ -1355,7 +1355,7 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     std::exponential_distribution<Tv> Dst(mParam1);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
     std::gamma_distribution<Tv> Dst(mParam1, mParam2);
@@ -1367,7 +1367,8 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     // return Dst(eng);
   } else if constexpr (type == DistributionType::kGldFkml) {
     std::uniform_real_distribution<Tv> Dst(0, 1); // generate p
-    return Dst(eng);
+    return DistributionGld::GetQuantile(Dst(eng), mParam1, mParam2, mParam3,
+                                        mParam4);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From c25e11280e0bb46e1a7281acd050f0a7180f0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 051/176] fix: S-shaped GLD from moments ignores kurtosis
 inside its region

---
 src/ldt_statistics/distributions/distribution_gld.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distribution_gld.cpp b/src/ldt_statistics/distributions/distribution_gld.cpp
index 34027d1..7ab9d1b 100644
--- a/src/ldt_statistics/distributions/distribution_gld.cpp
+++ b/src/ldt_statistics/distributions/distribution_gld.cpp
@@ -441,7 +441,7 @@ DistributionGld::GetFromMoments(Tv mean, Tv variance, Tv skewness,
         auto exc_kurt = -3.0 + (m4 - 4.0 * m1 * m3 + 6.0 * m1 * m1 * m2 -
                                 3.0 * std::pow(m1, 4.0)) /
                                    std::pow(v, 2.0);
-        return penalty * std::pow(ex_kurtosis - exc_kurt, 2.0) +
+        return penalty + std::pow(ex_kurtosis - exc_kurt, 2.0) +
                std::pow(skew - skewness, 2.0);
       };
       break;
-- 
2.43.0


From 42105763f72b450d5e50a67d244057c8f2eede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 052/176] fix: support of mixtures that have no positive values

---
 src/ldt_statistics/distributions/mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/mixture.cpp b/src/ldt_statistics/distributions/mixture.cpp
index 007df17..e9c4d71 100644
--- a/src/ldt_statistics/distributions/mixture.cpp
+++ b/src/ldt_statistics/distributions/mixture.cpp
@@ -259,7 +259,7 @@ Ti DistributionMixture::GetPmfSupportSize(Tv &min, Tv &max) {
   // for (Ti i = 0; i < pDistributions->size(); i++)
   //	pDistributions->at(i)->GetPmfSupportIncrement();
   Tv min0 = std::numeric_limits<Tv>::max();
-  Tv max0 = std::numeric_limits<Tv>::min();
+  Tv max0 = std::numeric_limits<Tv>::lowest();
   Ti siz = (Ti)pDistributions->size();
   for (Ti i = 0; i < siz; i++) {
     min0 = std::fmin(min0, pDistributions->at(i)->GetMinimum());
-- 
2.43.0


From 7d5796fbbd3d82ae606f951276f87ee056ef05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 053/176] fix: tails of the empirical distribution function
 have the wrong direction

---
 src/ldt_statistics/distributions/empirical103.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 4298391..6cd4d88 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -25,10 +25,10 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
   // deal with tails
   if (x <= Quantiles[0]) { // calculate last change and use it
     shift =
-        (x - Quantiles[0]) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
+        (Quantiles[0] - x) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
     y = 0.0001;
   } else if (x >= Quantiles[102]) {
-    shift = (x - Quantiles[102]) * (0.9999 - 0.999) /
+    shift = (Quantiles[102] - x) * (0.9999 - 0.999) /
             (Quantiles[102] - Quantiles[101]);
     y = 0.9999;
   }
@@ -61,7 +61,7 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
     shift = (d - x) * h / (Quantiles[i] - Quantiles[i - 1]);
   }
   Tv res = y - shift;
-  return res;
+  return std::max((Tv)0, std::min((Tv)1, res));
 }
 
 Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
-- 
2.43.0


From 2a462e9c192e8482bc3faa7ae6e8814c9efa0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 054/176] fix: quantiles of the empirical distribution use a
 wrong interval because of rounding

---
 src/ldt_statistics/distributions/empirical103.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 6cd4d88..c4c6eb6 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -104,7 +104,7 @@ Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
       h = 0.999 - 0.99;
     } else {                         // e.g. p=0.244   =>    0.24<p<0.25
       d = std::floor(p * 100) / 100; // floor
-      i = (Ti)(d * 100) + 1;
+      i = (Ti)std::floor(p * 100) + 1;
       h = 0.01;
     }
     shift = (p - d) * (Quantiles[i + 1] - Quantiles[i]) / h;
-- 
2.43.0


From df476b555eed12f60b7ce3a4333f8d65512daef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 055/176] fix: histogram puts observations at the end of the
 axis outside it and the last observation in the previous bin

---
 .../distributions/histogram.cpp               | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 3c62f94..d1186bb 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -23,33 +23,18 @@ void fill(Matrix<Tv> *sorteddata, Matrix<Tv> *axis, Matrix<Ti> *storageCount) {
 
   for (i = 0; i < m; i++) {
     d = sorteddata->Data[i];
-    if (i == m - 1) { // the last one
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d <= a) { //  <= for the last one
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
+    added = false;
+    for (p = j; p < n; p++) {
+      a = axis->Data[p];
+      if (d < a || (d == a && p == n - 1)) { //  <= for the last one
+        storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
+        j = p; // don't check others
+        added = true;
+        break;
       }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
-    } else {
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d < a) {
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
-      }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
     }
+    if (added == false)
+      storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
   }
 }
 
-- 
2.43.0


From 9668445ffc39e8be4991d2cfdf50edb7217de21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 056/176] fix: histogram with one bin counts observations
 outside its range

---
 src/ldt_statistics/distributions/histogram.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index d1186bb..ad9bd04 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -106,13 +106,7 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
     return bincount + 1; // size
   }
 
-  if (bincount == 1) {
-    storageAxis->Data[0] = min;
-    storageAxis->Data[1] = max;
-    storageCount->Data[0] = 0;
-    storageCount->Data[1] = L;
-    storageCount->Data[2] = 0;
-  } else {
+  {
 
     if (std::isnan(step)) {
       if (bincount == 0)
-- 
2.43.0


From b6a7653b1cedeaefc5899d8a9553dfb942734128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 057/176] fix: log density of F distributions loses digits

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index e0aa6a5..a1fd561 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -961,9 +961,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
     auto d1 = mParam1 / 2, d2 = mParam2 / 2;
-    return d1 * std::log(mParam1) + d2 * std::log(mParam2) +
-           xlogy(d1 - 1, x) - (d1 + d2) * std::log(mParam1 * x + mParam2) +
-           std::lgamma(d1 + d2) - std::lgamma(d1) - std::lgamma(d2);
+    auto r = mParam1 / mParam2;
+    return d1 * std::log(r) + xlogy(d1 - 1, x) -
+           (d1 + d2) * std::log1p(r * x) + std::lgamma(d1 + d2) -
+           std::lgamma(d1) - std::lgamma(d2);
   } else if constexpr (type == DistributionType::kGamma) {
     return (-mParam1 * std::log(mParam2)) + xlogy(mParam1 - 1, x) -
            (x / mParam2) - std::lgamma(mParam1);
-- 
2.43.0


From f5331e464312d9553a20a487dcbf591a5e579652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 058/176] fix: densities at infinity are not numbers

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index a1fd561..db8fe4c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -871,7 +871,7 @@ static Tv xlogy(Tv a, Tv x) { return a == (Tv)0 ? (Tv)0 : a * std::log(x); }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
+      x > GetMaximum() || std::isinf(x)) // impossible event -> zero probability
     return (Tv)0;
   if (IsDiscrete() && x != std::floor(x)) // between two support points
     return (Tv)0;
@@ -929,7 +929,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
-  if (x < GetMinimum() || x > GetMaximum() ||
+  if (x < GetMinimum() || x > GetMaximum() || std::isinf(x) ||
       (IsDiscrete() && x != std::floor(x))) // zero probability event
   {
     if constexpr (std::numeric_limits<Tv>::has_infinity) {
-- 
2.43.0


From 468d472ca663e98ef7a1163279bfcd7ede4f1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 059/176] fix: quantiles of beta, F and t distributions fail at
 some probabilities

---
 include/helpers.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/helpers.h b/include/helpers.h
index b34468e..7726fb0 100644
--- a/include/helpers.h
+++ b/include/helpers.h
@@ -95,7 +95,11 @@ template <typename Tw = Tv> Tw Math_iBeta(Tw x, Tw y, Tw z) {
 template <typename Tw = Tv> Tw Math_iBetaInv(Tw x, Tw y, Tw z) {
   if (std::isnan(z))
     return NAN;
-  return boost::math::ibeta_inv(x, y, z);
+  // with the default policy it fails to converge at some points (e.g., 5,5,0.5)
+  using namespace boost::math::policies;
+  return boost::math::ibeta_inv(
+      x, y, z,
+      policy<promote_double<false>, evaluation_error<ignore_error>>());
 }
 
 template <typename Tw = Tv> Tw Math_GammaPInv(Tw x, Tw y) {
-- 
2.43.0


From 8ee85edd15190aed9627981d98741b12f2fea122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 060/176] fix: upper quantiles of F distributions are infinite

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index db8fe4c..9127a0f 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1119,6 +1119,10 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
   } else if constexpr (type == DistributionType::kExponential) {
     return -std::log(1 - p) / mParam1;
   } else if constexpr (type == DistributionType::kF) {
+    if (p > (Tv)0.5) { // '1-x' loses its digits in the upper tail
+      auto y = Math_iBetaInv(mParam2 / (Tv)2, mParam1 / 2, 1 - p);
+      return mParam2 * (1 - y) / (mParam1 * y);
+    }
     auto x = Math_iBetaInv(mParam1 / 2, mParam2 / (Tv)2, p);
     return mParam2 * x / (mParam1 * (1 - x));
   } else if constexpr (type == DistributionType::kGamma) {
-- 
2.43.0


From ba6a281f360fcb816daca7dc95808d8d283ba4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 061/176] fix: combined empirical quantiles can be far outside
 their parts

---
 .../distributions/empirical103.cpp            | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index c4c6eb6..f7d35cd 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -131,11 +131,8 @@ void DistributionEmpirical103::Combine(
     return;
   }
 
-  // we find an x which minimizes the distance between prob and weighted
-  // average of the quantiles
-  Tv prob = NAN;
-  std::function<Tv(const Tv &)> objective = [&weight, &prob, &dists,
-                                             &weights](const Tv &x) -> Tv {
+  // weighted average of the distribution functions, which is increasing
+  auto cdf = [&weight, &dists, &weights](const Tv &x) -> Tv {
     Tv wa = 0;
     if (!weights)
       for (Ti j = 0; j < (Ti)dists.size(); j++)
@@ -143,11 +140,10 @@ void DistributionEmpirical103::Combine(
     else
       for (Ti j = 0; j < (Ti)dists.size(); j++)
         wa += weights[j] * dists.at(j).GetCDFApprox(x);
-    return std::abs(wa - prob);
+    return wa;
   };
 
-  // x cannot be less than start
-  Tv start;
+  Tv prob;
 
   for (Ti i = 0; i < 103; i++) {
     prob = i == 0     ? 0.0001
@@ -156,17 +152,18 @@ void DistributionEmpirical103::Combine(
            : i == 102 ? 0.9999
                       : (i - 1) / 100.0;
 
-    if (i == 0) { // let start to be the minimum of all distributions
-      Tv mi = INFINITY;
-      for (Ti j = 0; j < (Ti)dists.size(); j++)
-        if (mi > dists.at(j).Quantiles[0])
-          mi = dists.at(j).Quantiles[0];
-      start = mi;
+    // it is between the smallest and the largest quantile; use bisection
+    Tv lower = INFINITY, upper = -INFINITY;
+    for (auto &d : dists) {
+      lower = std::min(lower, d.Quantiles[i]);
+      upper = std::max(upper, d.Quantiles[i]);
     }
-    auto optim_x =
-        NelderMead::Minimize1(objective, start, 0.1, 500, 1e-8, start, NAN);
-    start = std::get<0>(optim_x);
-
-    result[i] = start;
+    for (Ti iter = 0; iter < 200; iter++) {
+      Tv mid = lower + (upper - lower) / 2;
+      if (mid <= lower || mid >= upper)
+        break;
+      (cdf(mid) < prob ? lower : upper) = mid;
+    }
+    result[i] = upper;
   }
 }
\ No newline at end of file
-- 
2.43.0


From 4f848a321cbce7a64cdef45797486bde60139193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 062/176] fix: Nelder-Mead minimum can be outside its bounds

---
 src/ldt_math/optimization/nelder_mead.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..18f04a7 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -208,6 +208,12 @@ void NelderMead::Minimize(
   Result.SetData(storage, n, 1);
   Array<Tv>::MinIndex<false>(values.Data, n + 1, temp, best_index);
   simplex[best_index].CopyTo00(Result);
+  for (Ti i = 0; i < n; i++) { // the penalty might leave it slightly outside
+    if (lower && Result.Data[i] < lower->Data[i])
+      Result.Data[i] = lower->Data[i];
+    if (upper && Result.Data[i] > upper->Data[i])
+      Result.Data[i] = upper->Data[i];
+  }
   Min = f(Result);
 }
 
-- 
2.43.0


From a8428ea2c04e502a27498ee8c396e723023b3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 063/176] fix: distribution function of F loses its upper tail

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 9127a0f..19a9a64 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1048,6 +1048,9 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kExponential) {
     return (Tv)1 - std::exp(-mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
+    if (mParam1 * x > mParam2) // keep the digits of the upper tail
+      return (Tv)1 - Math_iBeta(mParam2 / (Tv)2, mParam1 / 2,
+                                mParam2 / (mParam1 * x + mParam2));
     return Math_iBeta(mParam1 / 2, mParam2 / (Tv)2,
                       mParam1 * x / (mParam1 * x + mParam2));
   } else if constexpr (type == DistributionType::kGamma) {
-- 
2.43.0


From 2e72d71c84285b2665f9f30870f6994f1ce1edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 064/176] fix: derivatives reject points that are smaller than
 declared

---
 src/ldt_math/derivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/derivative.cpp b/src/ldt_math/derivative.cpp
index 70cbbd1..0f6b221 100644
--- a/src/ldt_math/derivative.cpp
+++ b/src/ldt_math/derivative.cpp
@@ -57,7 +57,7 @@ void Derivative::CalculateFirst(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result1.SetData(0, storage);
-  Result1.Restructure(n, 1);
+  Result1.Restructure0(n, 1); // 'n' might be smaller than declared
 
   // auto dir = _dir(x);
   // if (dir.empty() == false && dir.size() != n)
@@ -164,7 +164,7 @@ void Derivative::CalculateSecond(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result2.SetData(0, storage);
-  Result2.Restructure(n, n); // in case n is smaller
+  Result2.Restructure0(n, n); // in case n is smaller
 
   Ti nn = n * (n + 1) / 2;
   Ti pos = 0;
-- 
2.43.0


From 515a9317a428e87e4fd4206cf9e8fd3aa44711c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 065/176] fix: Newton iterations without line search never
 update the gradient

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From 696398585396864553b81cff1d93a2bcba226d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 066/176] fix: univariate Nelder-Mead walks between points of
 equal value

---
 src/ldt_math/optimization/nelder_mead.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 18f04a7..37e878c 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -270,11 +270,11 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
     Tv f1 = f(x1);
     Tv f2 = f(x2);
     Tv f0 = f(x0);
-    if (f1 <= f2 && f1 <= f0) {
+    if (f1 <= f2 && f1 < f0) {
       x0 = x1;
       x2 = x1 - step;
       x1 = x0 + step;
-    } else if (f2 <= f1 && f2 <= f0) {
+    } else if (f2 <= f1 && f2 < f0) {
       x0 = x2;
       x1 = x0 + step;
       x2 = x0 - step;
-- 
2.43.0


From 6c2abc0873c2f877a47d6ff7a94ecd9b0be05996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 067/176] fix: univariate Nelder-Mead can leave its bounds near
 zero

---
 src/ldt_math/optimization/nelder_mead.cpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 37e878c..e899346 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -229,34 +229,18 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
   else if (std::isnan(x_min)) {
     if (x0 > x_max)
       x0 = x_max;
-    f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
-    };
+    f = [&](Tv x) { return x > x_max ? INFINITY : objective(x); };
   } else if (std::isnan(x_max)) {
     if (x0 < x_min)
       x0 = x_min;
-    f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
-    };
+    f = [&](Tv x) { return x < x_min ? INFINITY : objective(x); };
   } else {
     if (x0 < x_min)
       x0 = x_min;
     if (x0 > x_max)
       x0 = x_max;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max || x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      return x > x_max || x < x_min ? INFINITY : objective(x);
     };
   }
 
-- 
2.43.0


From 5fb55c2fef391a1cb4ec99099f10c953db390f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 068/176] fix: Nelder-Mead stops at points of equal value
 around the minimum

---
 src/ldt_math/optimization/nelder_mead.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index e899346..841fd48 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -97,8 +97,16 @@ void NelderMead::Minimize(
     Array<Tv>::MinIndex<false>(values.Data, n + 1, temp, best_index);
 
     Diff = std::abs(values.Data[worst_index] - values.Data[best_index]);
-    if (Diff < Tolerance)
-      break;
+    if (Diff < Tolerance) {
+      // points of a large simplex might have similar values around the minimum
+      Tv size = 0.0;
+      for (Ti i = 0; i <= n; i++)
+        for (Ti j = 0; j < n; j++)
+          size = std::max(size, std::abs(simplex[i].Data[j] -
+                                         simplex[best_index].Data[j]));
+      if (size < std::sqrt(Tolerance))
+        break;
+    }
 
     // centroid = average of all points except worst point
     centroid.SetValue(0.0);
-- 
2.43.0


From 87ba61a01f562a2928f101bcc95785d19bab0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 069/176] fix: L-BFGS-B stopped by its limit returns a trial
 point of the line search

---
 src/ldt_math/optimization/lmbfgsb.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 64d174a..5516909 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -97,9 +97,17 @@ void LimitedMemoryBFGSB::Minimize00(
   Ti csave = 0;
   Task = 1;
   Iteration = 0;
+  Tv bestValue = NAN; // the last point of a line search is not the best one
+  std::vector<Tv> best(n);
   while (true) {
-    if (Iteration >= Options.IterationMax)
+    if (Iteration >= Options.IterationMax) {
+      if (FunctionValue > bestValue) {
+        std::copy(best.begin(), best.end(), startPoint.Data);
+        FunctionValue = bestValue;
+        gradient(startPoint, GradientVector);
+      }
       break;
+    }
     Iteration++;
     Options.IterationPrint = -1; //???????????
 
@@ -111,6 +119,10 @@ void LimitedMemoryBFGSB::Minimize00(
     if (Task >= 10 && Task <= 15) {
       FunctionValue = function(startPoint);
       gradient(startPoint, GradientVector);
+      if (std::isnan(bestValue) || FunctionValue < bestValue) {
+        bestValue = FunctionValue;
+        std::copy(startPoint.Data, startPoint.Data + n, best.begin());
+      }
     } else if (Task == 2) {
     } else
       break;
-- 
2.43.0


From 7143cfef1e6f85efcefa2f1f90c76e5dedfc4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 070/176] fix: L-BFGS-B stops at a projected step that is not a
 descent direction

---
 src/ldt_math/optimization/lbfgsb/subalgorithms.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldt_math/optimization/lbfgsb/subalgorithms.c b/src/ldt_math/optimization/lbfgsb/subalgorithms.c
index fa51597..231d202 100644
--- a/src/ldt_math/optimization/lbfgsb/subalgorithms.c
+++ b/src/ldt_math/optimization/lbfgsb/subalgorithms.c
@@ -2065,12 +2065,15 @@ L999:
   /*     check sign of the directional derivativeTv */
 
   dd_p__ = 0.;
+  temp1 = 0.;
   i__1 = *n;
   for (i__ = 1; i__ <= i__1; ++i__) {
     dd_p__ += (x[i__] - xx[i__]) * gg[i__];
+    temp1 += fabs((x[i__] - xx[i__]) * gg[i__]);
     /* L55: */
   }
-  if (dd_p__ > 0.) {
+  /* a direction without a significant descent cannot make progress */
+  if (dd_p__ > -1e-10 * temp1) {
     dcopy(n, &xp[1], &c__1, &x[1], &c__1);
     // printf("Positive dir derivative in projection \n");
     // printf("Using the backtracking step\n");
-- 
2.43.0


From ee707256f1f3f1514c2cbe67df81a3b2a7c1bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 071/176] fix: rounding moves points of L-BFGS-B out of their
 bounds

---
 src/ldt_math/optimization/lbfgsb/linesearch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ldt_math/optimization/lbfgsb/linesearch.c b/src/ldt_math/optimization/lbfgsb/linesearch.c
index 056a298..18908e3 100644
--- a/src/ldt_math/optimization/lbfgsb/linesearch.c
+++ b/src/ldt_math/optimization/lbfgsb/linesearch.c
@@ -144,6 +144,13 @@ L556:
       i__1 = *n;
       for (i__ = 1; i__ <= i__1; ++i__) {
         x[i__] = *stp * d__[i__] + t[i__];
+        /* rounding might move it out of its bounds */
+        if (nbd[i__] == 1 || nbd[i__] == 2) {
+          x[i__] = fmax(x[i__], l[i__]);
+        }
+        if (nbd[i__] == 2 || nbd[i__] == 3) {
+          x[i__] = fmin(x[i__], u[i__]);
+        }
         /* L41: */
       }
     }
-- 
2.43.0


From 2610c982a444c67148ada50632676bebfd57159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 072/176] fix: L-BFGS-B stops at a projected step with hardly
 any descent

---
 src/ldt_math/optimization/lbfgsb/subalgorithms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_math/optimization/lbfgsb/subalgorithms.c b/src/ldt_math/optimization/lbfgsb/subalgorithms.c
index 231d202..28554b1 100644
--- a/src/ldt_math/optimization/lbfgsb/subalgorithms.c
+++ b/src/ldt_math/optimization/lbfgsb/subalgorithms.c
@@ -2073,7 +2073,7 @@ L999:
     /* L55: */
   }
   /* a direction without a significant descent cannot make progress */
-  if (dd_p__ > -1e-10 * temp1) {
+  if (dd_p__ > -1e-3 * temp1) {
     dcopy(n, &xp[1], &c__1, &x[1], &c__1);
     // printf("Positive dir derivative in projection \n");
     // printf("Using the backtracking step\n");
-- 
2.43.0


From 6f2045b87ecd4196a403e7d4e6d463036f50477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 073/176] fix: a matrix polynomial that gets new data keeps the
 old coefficients

---
 include/math/polynomial.h                |  2 ++
 src/ldt_math/polynomials/mpolynomial.cpp | 13 ++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/math/polynomial.h b/include/math/polynomial.h
index 36e4ff3..e18d45d 100644
--- a/include/math/polynomial.h
+++ b/include/math/polynomial.h
@@ -103,6 +103,8 @@ class LDT_EXPORT PolynomialM {
 private:
   bool isOwner = false;
 
+  void Clear();
+
 public:
   /// @brief Coefficients of the polynomial
   std::vector<Matrix<Tv> *> Coefficients;
diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..f3735f0 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -18,16 +18,18 @@ using namespace ldt;
 
 PolynomialM::PolynomialM() { Coefficients = std::vector<Matrix<Tv> *>(); }
 
-PolynomialM::~PolynomialM() {
-  if (isOwner) {
+PolynomialM::~PolynomialM() { Clear(); }
+
+void PolynomialM::Clear() {
+  if (isOwner)
     for (auto i : Coefficients)
       delete i;
-    Coefficients.clear();
-  }
+  Coefficients.clear();
+  isOwner = false;
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
-  isOwner = false;
+  Clear(); // it might be used before
   Ti j = (Ti)a.size();
   // trim
   if (trim) {
@@ -46,6 +48,7 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  Clear();        // it might be used before
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
-- 
2.43.0


From 972b34656c494c7d837e97402ed588730ce553bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 074/176] fix: a truncated power of a polynomial writes outside
 its storage

---
 src/ldt_math/polynomials/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..cd5d434 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -109,7 +109,7 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
   }
 
   Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+                                    std::min(length, a.Coefficients.length()));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From 03f915fb2435fb43e1bbd463b74461920575e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 075/176] fix: MA form of a pure MA model writes one
 coefficient outside its storage

---
 .../modeling/time_series/varma/varma_arma.cpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..bed7f92 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]);
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From ad182b85a24c806adad47b6bab70d73b35f303df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 076/176] fix: too few general restrictions are rejected after
 writing outside the storage

---
 .../modeling/time_series/varma/varma_restriction.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
index e30fc34..f14dd6a 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
@@ -50,13 +50,13 @@ void VarmaRestriction::Calculate(Tv *storage,
       throw LdtException(ErrorType::kLogic, "varma-restriction",
                          "list of restriction indexes is missing");
     Ti r = (Ti)generalRestrictedIndexes->size();
-    Ti q = params - r;
-    R.Restructure0(params, q);
-    R.SetData(0, storage);
     if (mGeneralRestrictionCount >
         r) // we can set larger restrictions, but not fewer
       throw LdtException(ErrorType::kLogic, "varma-restriction",
                          "inconsistent number of restrictions");
+    Ti q = params - r;
+    R.Restructure0(params, q);
+    R.SetData(0, storage);
 
     Ti j = -1;
     for (Ti i = 0; i < params; i++) {
-- 
2.43.0


From 75f7cb5f8259d7166b943edf0f5d948f5676f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 077/176] fix: a lag that is both seasonal and non-seasonal
 enters the model twice

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..89b4d1d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p) // otherwise, it is already there
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From 1df91bc6312538047f8499913527c5c62d790b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 078/176] fix: a matrix polynomial with singular first
 coefficient is inverted

---
 src/ldt_math/polynomials/mpolynomial.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index f3735f0..7ba88ad 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -153,11 +153,14 @@ void PolynomialMInvert::Calculate(const PolynomialM &a, Tv *storage, Tv *work,
 
   Result.Data(maxLength - 1, size, storage);
 
+  Ti info = 0;
   try {
-    a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
+    info = a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
   } catch (...) {
-    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
+    info = -1;
   }
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
 
   auto inv0 = Result.Coefficients.at(0);
   auto s2 = size * size;
-- 
2.43.0


From b1b10bfe47a6ce8424362ce4c279b81c48479879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 079/176] fix: size checks of OLS and GLS are inverted

---
 src/ldt_statistics/statistics/statistics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..c69fcd3 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -101,7 +101,7 @@ void Ols::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
 
   // check size
   auto temp = Ols(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
@@ -178,8 +178,8 @@ void Gls::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Matrix<Tv> &omega,
                        "low degrees of freedom");
 
   // check size
-  auto temp = Gls(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  auto temp = Gls(N, m, k, mDoResid, mDoSigma, mIsOmegaInv);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From 87554864f3442dca5d0db16039e30d929b4eaf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 080/176] fix: restricted SUR uses a failed inverse of a
 singular residual variance

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..3ea20af 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -243,7 +243,8 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   auto V_o_xRtz = Matrix<Tv>(&work[q], qStar, (Ti)1);
   q += qStar;
 
-  resid_var.Inv0();             // S^-1
+  if (resid_var.Inv0() != 0) // S^-1
+    throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
   x.Dot_AtA(xtx);               // X'X: kxk
   resid_var.Kron(xtx, V_o_xtx); // S^-1 o X'X
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
-- 
2.43.0


From 8f991bc495cf988e890a90672c37d3905384732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 081/176] fix: standard errors are zero if the significance
 search removes nothing

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 3ea20af..0c0dcce 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -312,7 +312,7 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
   Ti k0 = x.ColsCount;
   Ti k0m = k0 * m;
   Ti q = 0, j;
-  pR->SetValue(0);
+  Matrix<Tv>::Diagonal(*pR); // no restriction yet
   auto sig_inds = std::vector<Ti>();
   Ti cs = k0m;
   for (mSigSearchIter = 0; mSigSearchIter < mSigSearchMaxIter;
-- 
2.43.0


From 2000be29a611550132c42bbbff2c5e221a6bdbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 082/176] fix: restricted SUR without a restriction matrix
 dereferences null

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 0c0dcce..95f0d20 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -374,6 +374,9 @@ void Sur::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
     throw LdtException(ErrorType::kLogic, "sur",
                        "'R' should be a 'km x km' Matrix, when you want a "
                        "significant search");
+  else if (mIsRestricted && !R)
+    throw LdtException(ErrorType::kLogic, "sur",
+                       "restrictions are missing in a restricted model");
   else if (R && (R->RowsCount != km || R->ColsCount > km))
     throw LdtException(ErrorType::kLogic, "sur", "restrictions are not valid");
 
-- 
2.43.0


From 82c53e7a7f121c9ea48d6354e700bc3db49bd90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 083/176] fix: new exogenous data is copied outside the storage
 if PCA reduces it

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 7373d14..c3a9f87 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -42,13 +42,12 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     PcaX = PcaAnalysis(N, k, numProjections, true, true, true, true);
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
+    if (numProjections > 0)
+      StorageSize += numProjections * k; // copy X
     // update number of exogenous data
     k = std::min(k,
                  pcaOptionsX->CutoffCountMax +
                      pcaOptionsX->IgnoreFirstCount); // for estimating the model
-
-    if (numProjections > 0)
-      StorageSize += numProjections * k; // copy X
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
-- 
2.43.0


From 8c6b3331707a62048f4e073eeab9b412c7d1e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 084/176] fix: a label outside the choices is counted outside
 the storage

---
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 113cb28..9893108 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -77,6 +77,11 @@ void DiscreteChoice<modelType, distType>::Calculate(
                          "invalid dependent data");
   }
   this->NumChoices = numChoices;
+  for (Ti i = 0; i < numObs; i++)
+    if (!(y.Data[i] >= 0 && y.Data[i] <= this->NumCutoff)) // also NAN
+      throw LdtException(ErrorType::kLogic, "discrete-choice",
+                         "invalid dependent data: a label is not in the range "
+                         "of the choices");
 
   auto temp = DiscreteChoice<modelType, distType>(numObs, numExo, numChoices,
                                                   this->mDoDetails);
-- 
2.43.0


From 6a663bac46e8caf71cda47ef969a8589fcbe3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 085/176] fix: condition number of an ordered model is never
 calculated

---
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 9893108..7b4d4ba 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -1053,7 +1053,10 @@ void DiscreteChoice<modelType, distType>::EstimateOrdered(const Matrix<Tv> &y,
   hfun(this->Beta, this->BetaVar); // hessian gets destroyed in optimization
   auto ipiv = std::make_unique<int[]>(k);
   Hi.Restructure0(k, k);
+
+  this->condition_number = this->BetaVar.Norm('1'); // condition number
   this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  this->condition_number *= this->BetaVar.Norm('1');
 
   this->LogL = -this->Optim.FunctionValue;
   calculate_goodness(*this);
-- 
2.43.0


From 1a2dbcb3a18781ab1c51b1af2af314e287de48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 086/176] fix: work size of a discrete choice model ignores the
 number of forecasts

---
 .../modeling/discrete/discrete_choice_extended.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..e3e7a6b 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -56,7 +56,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize +=
         mNumChoices * numForecast +
         numForecast * cols; // for copying forecast matrix (TODO: this is work)
-    WorkSize = std::max(WorkSize, rows + numChoices - 2);
+    WorkSize = std::max(WorkSize, numForecast + numChoices - 2);
   }
 
   if (doDetails) {                     // Auc and Cost
-- 
2.43.0


From d23391c4f59d852c9fd704fba58e976b75d08f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 087/176] fix: in-sample scores use rows that do not exist if
 observations are missing

---
 .../modeling/discrete/discrete_choice_extended.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index e3e7a6b..f2729de 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -84,7 +84,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -149,8 +148,9 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    // (missing rows are removed from the data)
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -171,14 +171,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From af8e5fe93aea29cbe2c82782c92321eb82796fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 088/176] fix: simulation with Brier score only is rejected as
 having no goal

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..7c73f2a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
-- 
2.43.0


From 894ac0e61a2c60b132fffae8612b8f2e47182bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 089/176] fix: simulation reports the Brier score of the last
 run only

---
 .../modeling/discrete/discrete_choice_sim.cpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 7c73f2a..a6107b5 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -166,6 +166,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = mDoBrier ? 0 : NAN;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -252,20 +253,20 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, score = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          if (mWeightedEval)
+            wi = w1.Data[i];
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        score += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += score / sum; // sum
     }
 
     if (costCount > 0) {
@@ -332,6 +333,8 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  if (mDoBrier)
+    this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From 8369c5e963adb2c9833b421950ce4b148354d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 090/176] fix: simulation with less rows than declared uses a
 wrong sample size

---
 .../modeling/discrete/discrete_choice_sim.cpp            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index a6107b5..cb47e4e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -112,7 +112,14 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // the given data might have less rows than expected
+  Ti N0 = mTrainFixSize > 0
+              ? mTrainFixSize
+              : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From 2d5b71226be5ff1ad689dc8a1cc865df612ed60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 091/176] fix: range of a dataset is not set if missing data is
 not checked

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index e9ff9cf..f709f40 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -182,6 +182,8 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
                         0);
       }
     } else { // simply copy
+      Start = 0;
+      End = (byRow ? pData->ColsCount : pData->RowsCount) - 1;
       Result.Restructure0(pData->RowsCount, pData->ColsCount);
       if (storage)
         pData->CopyTo00(Result);
-- 
2.43.0


From ee977bf7e5303000dadfef6e7549b6d361130960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 092/176] fix: coefficient matrix has no storage if details are
 not requested

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp       | 3 +++
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..bb75f59 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -460,6 +460,9 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     q = R->ColsCount;
 
   if (Sizes.HasMa == false && !R) {
+    // set coefficient matrix (it is required in forecasting)
+    Result.gamma.CopyTo00(Result.coef);
+
     if (mDoDetails) {
       SetDetails(*this, R);
       // logarithm Likelihood
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 89b4d1d..3de1a76 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -258,10 +258,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   pos += sigma2.length();
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
 
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From 8411a153eea36a54b9318f05292bd29a5ae17b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 093/176] fix: residuals are of a perturbed parameter if
 variance is not calculated

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index bb75f59..fe49a52 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -543,11 +543,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
                                      // have asked for second derivative
     Result.gammavar.Inv0();
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From d9c78edec7ce0b6a84994c038392aaffa2a65019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 094/176] fix: likelihood of a time series model counts
 excluded observations

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index fe49a52..fe01761 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -455,7 +455,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   auto q = Sizes.NumParams;
   auto g = Sizes.EqsCount;
   auto f = Sizes.NumParamsEq;
-  auto T = Sizes.T;
+  auto T = Sizes.T - sampleEnd;
   if (R && R->length() > 0)
     q = R->ColsCount;
 
-- 
2.43.0


From 2970fe069f08cca9841100800e4b6b59c3ca9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 095/176] fix: restricted model without MA part is rejected

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 3de1a76..bad12ca 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -220,7 +220,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
 
   // maximum likelihood
   Ti mlW = 0;
-  if (sizes.HasMa) {
+  if (sizes.HasMa || isRestricted) {
     auto derv = Derivative(q, true,
                            calculateVarCoefs); // TODO: add 'count' as an option
     LimitedMemoryBfgsbOptions opop;
-- 
2.43.0


From e395678f24587236ed7033398b9c2695d356bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 096/176] fix: bounds are lost if current estimation is used
 with another sample end

---
 .../modeling/time_series/varma/varma_sizes.cpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index bad12ca..7cefc21 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -248,6 +248,9 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
 
   gamma.SetData(&storage[pos], q, 1);
   pos += gamma.length();
+  gammavar.SetData(&storage[pos], q, q); // before those that depend on T: it
+                                         // is used with the current estimation
+  pos += gammavar.length();
   resid.SetData(&storage[pos], g, T);
   pos += resid.length();
   y.SetData(&storage[pos], g, T);
@@ -256,8 +259,6 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   pos += Xt.length();
   sigma2.SetData(&storage[pos], g, g);
   pos += sigma2.length();
-  gammavar.SetData(&storage[pos], q, q);
-  pos += gammavar.length();
   coef.SetData(&storage[pos], g, f);
   pos += coef.length();
 
-- 
2.43.0


From 16bf1417fbfc502d0ea18f1517d1a745f65fcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 097/176] fix: forecasts of a short sample read before its
 first observation

---
 .../modeling/time_series/varma/varma_forecast.cpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index b3f0a37..179ef71 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -63,7 +63,7 @@ void xtprime(Matrix<Tv> &xt, const Matrix<Tv> &forecast,
                      // sense of Eviews
     for (auto &l : sizes.MaLags) {
       auto ind = resid_ind + fRow - l;
-      if (ind < resid.ColsCount)
+      if (ind >= 0 && ind < resid.ColsCount)
         xt.SetSub0(sR, 0, resid, 0, ind, forecast.RowsCount, 1);
       sR += forecast.RowsCount;
     }
@@ -89,14 +89,14 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
   Ti resid_ind = sizes.T - estimate.SampleEnd - sizes.ArMax_d;
   StartDiff = resid_ind;
   Ti x_ind = sizes.T - estimate.SampleEnd;
+  if (resid_ind < 0)
+    throw LdtException(
+        ErrorType::kLogic, "varma-forecast",
+        "in forecast, end-sample must be larger than 'maxp+diff'");
   if (exoIsNew)
     x_ind = -sizes.ArMax_d;
   else {
     // check
-    if (resid_ind < 0)
-      throw LdtException(
-          ErrorType::kLogic, "varma-forecast",
-          "in forecast, end-sample must be larger than 'maxp+diff'");
     if (sizes.ExoCount != 0 && (exo->ColsCount < x_ind + h_armax_d))
       throw LdtException(ErrorType::kLogic, "varma-forecast",
                          "in forecasting by VARMA, length of exogenous data is "
-- 
2.43.0


From 7be5780d653159406e18647ca5f25d6c9d14be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 098/176] fix: PCA in time series models uses wrong columns of
 the data

---
 .../math/statistics/inference/models/varma.h  |  2 ++
 .../time_series/varma/varma_extended.cpp      | 36 +++++++++++++------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..eb8c22e 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -356,6 +356,8 @@ class LDT_EXPORT VarmaExtended {
   bool mCalcVariance = false;
   bool mHasPcaY = false;
   bool mHasPcaX = false;
+  Ti mEqsCount = 0; // before PCA
+  Ti mExoCount = 0; // before PCA
 
 public:
   bool mCheckNan = false;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index 1f95cb2..67cf647 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -24,6 +24,8 @@ VarmaExtended::VarmaExtended(
   mHorizon = fHorizon;
 
   Sizes = VarmaSizes(sizes); // it changes in the PCA
+  mEqsCount = Sizes.EqsCount;
+  mExoCount = Sizes.ExoCount;
 
   StorageSize = 0;
   WorkSize = 0;
@@ -99,19 +101,16 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
         ErrorType::kLogic, "varma-extended",
         "reserved maximum number of horizon is lower that the given horizon");
 
-  auto temp = VarmaExtended(Sizes, mRestriction, mCheckNan, mDoDetails,
-                            mCalcVariance, horizon, pPcaOptionsY, pPcaOptionsX,
-                            &Model.Result.Optim.Options);
-  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
+  if (data.ColsCount != mEqsCount + mExoCount)
     throw LdtException(ErrorType::kLogic, "varma-extended",
-                       "inconsistent arguments (in VarmaExtended)");
+                       "invalid number of variables in the data");
 
   Ti p = 0;
 
   // Prepare
   Data.Data(data);
   p += Data.StorageSize;
-  Data.Update(nullptr, storage);
+  Data.Update(nullptr, nullptr); // just the range
   if (Data.HasMissingData)
     throw LdtException(ErrorType::kLogic, "varma-extended",
                        "missing data is found in VARMA data");
@@ -119,6 +118,20 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
     throw LdtException(ErrorType::kLogic, "varma-extended",
                        "data is not valid");
 
+  auto tempSizes = VarmaSizes(Sizes); // sizes of the given data (before PCA)
+  tempSizes.ObsCount = Data.End - Data.Start + 1;
+  tempSizes.EqsCount = mEqsCount;
+  tempSizes.ExoCount = mExoCount;
+  tempSizes.UpdateChanged();
+  auto temp = VarmaExtended(tempSizes, mRestriction, mCheckNan, mDoDetails,
+                            mCalcVariance, horizon, pPcaOptionsY, pPcaOptionsX,
+                            &Model.Result.Optim.Options);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
+    throw LdtException(ErrorType::kLogic, "varma-extended",
+                       "inconsistent arguments (in VarmaExtended)");
+
+  Data.Update(nullptr, storage);
+
   auto estimStorage =
       &storage[p]; // let it be here, so that you do not override gamma when
                    // useCurrentEstimation is true
@@ -129,10 +142,10 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   Ti count = Data.Result.RowsCount; // note that sample end will be effective
                                     // in the Varma estimation
   Tv *d = Data.Result.Data;
-  Y.SetData(d, count, Sizes.EqsCount); // since variables are in columns and
+  Y.SetData(d, count, mEqsCount); // since variables are in columns and
                                        // matrix is column-major
   if (Sizes.ExoCount > 0)
-    X.SetData(&d[Sizes.EqsCount * count], count, Sizes.ExoCount);
+    X.SetData(&d[mEqsCount * count], count, mExoCount);
 
   if (mHasPcaY) { // change data for Y
     pPcaOptionsY->CalculateForModel(PcaY, Y, work, &storage[p], nullptr);
@@ -149,7 +162,7 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
       useExoForecast.SetData(&storage[p], horizon, X.ColsCount);
       p += horizon * X.ColsCount;
       useExoForecast.SetSub(0, 0, data, Data.End + 1 - sampleEnd,
-                            Sizes.EqsCount, horizon, X.ColsCount);
+                            mEqsCount, horizon, X.ColsCount);
     }
     if (mHasPcaX) {
       pPcaOptionsX->CalculateForModel(PcaX, X, work, &storage[p],
@@ -160,7 +173,10 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
 
   // restrictions
 
-  Restriction = VarmaRestriction(Sizes, mRestriction);
+  Model.Sizes.EqsCount = Y.ColsCount; // PCA might select fewer components
+  Model.Sizes.ExoCount = Sizes.ExoCount > 0 ? X.ColsCount : 0;
+  Model.Sizes.UpdateChanged();
+  Restriction = VarmaRestriction(Model.Sizes, mRestriction);
   Restriction.Calculate(&storage[p]);
   p += Restriction.StorageSize;
 
-- 
2.43.0


From 09e40b5a50af4a84eef3421c41a68dbc72e6719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 099/176] fix: a group without targets stops the whole SUR
 search

---
 Rpackage/src/r_func.cpp                             | 2 +-
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 2cc1046..cc49639 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -155,7 +155,7 @@ RFuncModelset::RFuncModelset(
                            "empty endogenous indexes");
 
       if (isInnerExogenous == false) {
-        if (inner_group.at(0) > items.LengthTargets)
+        if (inner_group.at(0) >= items.LengthTargets)
           continue; // no target here
       }
       /*auto seed = metrics.Seed == 0
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..1eb76ce 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -214,7 +214,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 89f731e5ef2b084f352bc61191fc7c10ac3b234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 100/176] fix: simulations in a search use the Box-Cox
 parameters of other variables

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp       | 8 +++++++-
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 1eb76ce..621fce0 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -94,6 +94,12 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     return "";
 
   if (Model.WorkSize > 0) { // otherwise, not initialized
+    // parameters of the transformations of the current endogenous variables
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : InnerIndices)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         Data.Result, InnerIndices.size(), &work[s],
         &work[s + Model.StorageSize], SigSearchMaxIter > 0 ? &R : nullptr,
@@ -101,7 +107,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..6566300 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -223,6 +223,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (this->pOptions->RequestCancel)
       return "";
 
+    // parameters of the transformations of the current endogenous variables
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         S_s, W, Y, this->pOptions->RequestCancel, num_exo > 0 ? &X : nullptr,
         Restriction.IsRestricted ? &R : nullptr, nullptr, UsePreviousEstim,
@@ -230,7 +236,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From 9d93d148fb3bf39302b4c2466f418ff885af1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 101/176] fix: first in-sample score of a discrete choice
 search is always zero

---
 .../modeling/discrete/discrete_choice_modelset.cpp   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..de71528 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -199,13 +199,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +224,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +235,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -417,9 +417,7 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
-                 0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+  } else {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From 538c1d966583f1612315588595bc5a8fdde63030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 102/176] fix: degrees of freedom of a discrete choice model in
 a search are too small

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index de71528..5f37dae 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - (num_exo + this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 92241db11da01eb4dec92f592362e0e0e0692eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 103/176] fix: discrete choice search ignores the minimum
 number of simulations

---
 .../modeling/discrete/discrete_choice_modelset.cpp         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 5f37dae..c7beefc 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,10 +177,9 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
-                    this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    &work[s + Model.StorageSize], workI,
+                    this->pOptions->RequestCancel, *pAucOptions, true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From c216437960cdf288f0c22748b82a309c6024dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 104/176] fix: in-sample scores of a search use rows that were
 removed

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index c7beefc..9de7ae5 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -200,7 +200,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From ca4260e5b998906a054efbc0ef2895f9427dc888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 105/176] fix: degrees of freedom of a VARMA model in a search
 ignore its lags

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 6566300..213b1cb 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -124,7 +124,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > ycount - X.RowsCount)
+          this->pChecks->MinDof > ycount - this->Sizes.NumParamsEq)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 89c142c0e8ff4ed8dd3dbe65e7cb82274d4438e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 106/176] fix: prediction bounds are checked in the horizons of
 the simulation

---
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 213b1cb..95fc0ed 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -182,9 +182,11 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            // rows of the bounds are the horizons
+            Ti count = std::min({mMaxHorizonCheck,
+                                 pChecks->PredictionLower.RowsCount,
+                                 pChecks->PredictionUpper.RowsCount});
+            for (Ti h = 1; h <= count; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 07fa22cdf3d01e8ed85df82a1fa70edb5e14b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 107/176] fix: VARMA search accepts too few valid simulations

---
 .../modeling/time_series/varma/varma_modelset.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 95fc0ed..b7cd309 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -243,6 +243,9 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
                          "number of valid simulations is 0");
+    if (Model.ValidCounts < this->pChecks->MinOutSim)
+      throw LdtException(ErrorType::kLogic, "varma-modelset",
+                         "model check: minimum valid simulations");
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
-- 
2.43.0


From 70ac28632f692d11b29e05ed3231c08cc681a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 108/176] fix: memory of a VARMA search is too small if first
 series ends early

---
 .../modeling/time_series/varma/varma_modelset.cpp      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index b7cd309..c33a5e4 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -334,7 +334,7 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   // check group indexes and create sizes array
   for (auto const &b : combinations.Partitions) {
     for (auto &a : b) {
-      if (a > items.LengthEndogenous)
+      if (a >= items.LengthEndogenous)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "invalid endogenous group element (it is larger "
                            "than the number "
@@ -357,9 +357,11 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
 
-  auto T = source.Ranges.at(0).EndIndex +
-           1; // The first target determines the number of observations
-              // (this is required for out-of-sample exogenous data)
+  // The longest endogenous series determines the number of observations
+  // (exogenous data might be longer; it is required for out-of-sample)
+  Ti T = 0;
+  for (Ti i = 0; i < items.LengthEndogenous; i++)
+    T = std::max(T, (Ti)(source.Ranges.at(i).EndIndex + 1));
 
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
-- 
2.43.0


From 1b15ecb79e60aa1ec93ffc6b25a3d060e90dfdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 109/176] fix: an error in a part of a parallel search
 terminates the process

---
 .../modeling/search/modelset.cpp               | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 6203bbe..234cc1a 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -5,6 +5,7 @@
 */
 
 #include <algorithm>
+#include <exception>
 // #include <execution>
 #ifdef _OPENMP
 #include <omp.h>
@@ -70,13 +71,22 @@ void ModelSet::Start(Tv *work, Ti *workI) {
     */
 
 #ifdef _OPENMP
+    // an exception must not leave a parallel region
+    auto errors = std::vector<std::exception_ptr>(pSearchers->size());
 #pragma omp parallel for
     for (Ti i = 0; i < (Ti)pSearchers->size(); i++) {
-      auto item = pSearchers->at(i);
-      auto w = std::make_unique<Tv[]>(item->WorkSize);
-      auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
-      item->Start(w.get(), wI.get());
+      try {
+        auto item = pSearchers->at(i);
+        auto w = std::make_unique<Tv[]>(item->WorkSize);
+        auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
+        item->Start(w.get(), wI.get());
+      } catch (...) {
+        errors.at(i) = std::current_exception();
+      }
     }
+    for (auto &e : errors)
+      if (e)
+        std::rethrow_exception(e);
 #else
     throw LdtException(ErrorType::kLogic, "sur-modelset",
                        "parallel execution is not supported");
-- 
2.43.0


From 1c3c50e8d08eed4603337d8c8c3eda1aff2abd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 110/176] fix: cancelling a SUR search in a simulation reads
 missing results

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 621fce0..2cfca4d 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -109,6 +109,9 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
         lambdas.size() == 0 ? nullptr : &lambdas);
 
+    if (this->pOptions->RequestCancel) // there might be no result
+      return "";
+
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
-- 
2.43.0


From be6ce0d54550a329720d10290919f644eb1ef1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 111/176] fix: a distance matrix of fewer variables than
 declared has wrong dimensions

---
 src/ldt_statistics/clustering/distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 59a3050..6c0e871 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -150,7 +150,7 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
   if (temp.StorageSize > this->StorageSize || temp.WorkSize > this->WorkSize)
     throw LdtException(ErrorType::kLogic, "distance", "inconsistent arguments");
 
-  this->Result.SetData(storage);
+  this->Result.SetData(storage, data.ColsCount); // might be smaller than declared
 
   if constexpr (method == DistanceMethod::kCorrelation ||
                 method == DistanceMethod::kAbsCorrelation) {
-- 
2.43.0


From 6d68a6b3cb69e603864973186102ab810b686a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 112/176] fix: PCA of data smaller than declared can write
 beyond its storage

---
 src/ldt_statistics/pca.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index 099d4ba..3af0b7a 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -80,7 +80,7 @@ void PcaAnalysis::Calculate(const Matrix<Tv> &mat, Tv *work, Tv *storage,
   ;
   if (DataS.StorageSize > 0) {
     DataS.Calculate(mat, &storage[q]);
-    q += DataS.StorageSize;
+    q += temp.DataS.StorageSize; // data might be smaller than declared
     useMat.SetData(DataS.Result.Data, DataS.Result.RowsCount,
                    DataS.Result.ColsCount);
   } else {
-- 
2.43.0


From ff82384895c329e1ea7f1f058cd9d50c3999410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 113/176] fix: Dataset writes beyond its storage when data is
 larger than declared

---
 src/matrix/dataset.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index f709f40..0495cfa 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -34,15 +34,23 @@ template <typename Tw>
 void Dataset<Tw>::Calculate(const Matrix<Tw> &data, std::vector<Ti> *colIndexes,
                             Tw *storage) {
 
+  auto checkSize = [this](size_t rows, size_t cols) {
+    if (rows * cols > (size_t)StorageSize)
+      throw LdtException(ErrorType::kLogic, "dataset",
+                         "inconsistent size in 'Dataset'");
+  };
+
   if (mSelectColumn) {
     if (!colIndexes)
       throw std::invalid_argument("colIndexes");
     if (mHasNaN) {
       auto v = std::vector<Ti>();
       data.GetAnyNanRow(v, false, colIndexes);
+      checkSize(v.size(), colIndexes->size());
       Result.SetData(storage, (Ti)v.size(), (Ti)colIndexes->size());
       data.GetSub(v, *colIndexes, Result, 0, 0);
     } else {
+      checkSize(data.RowsCount, colIndexes->size());
       Result.SetData(storage, data.RowsCount, (Ti)colIndexes->size());
       data.GetSub(0, data.RowsCount, *colIndexes, true, Result, 0, 0, false);
     }
@@ -50,9 +58,11 @@ void Dataset<Tw>::Calculate(const Matrix<Tw> &data, std::vector<Ti> *colIndexes,
     if (mHasNaN) {
       auto v = std::vector<Ti>();
       data.GetAnyNanRow(v, false, nullptr);
+      checkSize(v.size(), data.ColsCount);
       Result.SetData(storage, (Ti)v.size(), data.ColsCount);
       data.GetSub(0, data.ColsCount, v, false, Result, 0, 0);
     } else { // simply copy
+      checkSize(data.RowsCount, data.ColsCount);
       Result.SetData(storage, data.RowsCount, data.ColsCount);
       data.CopyTo00(Result);
     }
-- 
2.43.0


From 76e4107b8a2533fb7efdca56564bae6634c6572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 114/176] fix: DatasetTs writes beyond its storage when data is
 larger than declared

---
 src/matrix/dataset.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 0495cfa..1225bbd 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -155,6 +155,12 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
 
   if (storage) // if null, we just update Start and End
     Result.SetData(storage);
+  auto restructure = [this, storage](Ti rows, Ti cols) {
+    if (storage && (long long)rows * cols > StorageSize)
+      throw LdtException(ErrorType::kLogic, "dataset",
+                         "inconsistent size in 'DatasetTs'");
+    Result.Restructure0(rows, cols);
+  };
   if (mSelect) {
     Start = 0;
     End = 0;
@@ -167,9 +173,9 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
       biggestWithoutNaN(Ranges, indexes, Start, End);
 
     if constexpr (byRow) {
-      Result.Restructure0((Ti)indexes->size(), (Ti)(End - Start + 1));
+      restructure((Ti)indexes->size(), (Ti)(End - Start + 1));
     } else if constexpr (true) {
-      Result.Restructure0((Ti)(End - Start + 1), (Ti)indexes->size());
+      restructure((Ti)(End - Start + 1), (Ti)indexes->size());
     }
 
     if (storage)
@@ -181,12 +187,12 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
       End = 0;
       biggestWithoutNaN(Ranges, nullptr, Start, End);
       if constexpr (byRow) {
-        Result.Restructure0(pData->RowsCount, End - Start + 1);
+        restructure(pData->RowsCount, End - Start + 1);
         if (storage)
           pData->GetSub(0, Start, pData->RowsCount, End - Start + 1, Result, 0,
                         0);
       } else if constexpr (true) {
-        Result.Restructure0(End - Start + 1, pData->ColsCount);
+        restructure(End - Start + 1, pData->ColsCount);
         if (storage)
           pData->GetSub(Start, 0, End - Start + 1, pData->ColsCount, Result, 0,
                         0);
@@ -194,7 +200,7 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
     } else { // simply copy
       Start = 0;
       End = (byRow ? pData->ColsCount : pData->RowsCount) - 1;
-      Result.Restructure0(pData->RowsCount, pData->ColsCount);
+      restructure(pData->RowsCount, pData->ColsCount);
       if (storage)
         pData->CopyTo00(Result);
     }
-- 
2.43.0


From 99e181207dfe7d35f5d4f94e8c56d8091f4c3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 115/176] fix: data splits write beyond their memory when data
 is larger than declared

---
 src/ldt_statistics/data_split.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index c6ab3f9..f10f97f 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -26,6 +26,9 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   auto rows = data.RowsCount;
   auto cols = data.ColsCount;
+  if (rows * cols > StorageSize || rows > WorkSizeI)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "inconsistent size in 'DataSplitDiscrete'");
   mTrainRatio = trainFixSize > 0 ? static_cast<Tv>(trainFixSize) / rows : trainRatio;
   mTrainFixSize = trainFixSize;
 
@@ -147,6 +150,9 @@ void DataSplit::Calculate(const Matrix<Tv> &data, Tv *storage, Tv trainRatio,
 
   auto rows = data.RowsCount;
   auto cols = data.ColsCount;
+  if (rows * cols > StorageSize || rows > WorkSizeI)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "inconsistent size in 'DataSplit'");
   mTrainRatio = trainRatio;
   mTrainFixSize = trainFixSize;
 
-- 
2.43.0


From 2ecd006d4266bee221c02678fa429ffdbd56550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 116/176] fix: FrequencyCost writes beyond its storage for more
 matrices than declared

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 4965d18..3be85b4 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -20,6 +20,9 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
                                          Tv *storage) {
 
   Ti count = (Ti)costs.size();
+  if (2 * count > StorageSize)
+    throw LdtException(ErrorType::kLogic, "frequencycost",
+                       "inconsistent size in 'FrequencyCost'");
   CostSums.SetData(0, storage, count, 1);
   CostCounts.SetData(0, &storage[count], count, 1);
 
-- 
2.43.0


From 7d8848b1bc64fa435d372e50cc782583171747f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 117/176] fix: HCluster fails when it is used for the second
 time

---
 src/ldt_statistics/clustering/hcluster.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index d5841ed..0ea06dd 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -98,6 +98,11 @@ void HCluster<method>::Calculate(MatrixSym<false> &distances) {
     throw LdtException(ErrorType::kLogic, "hcluster",
                        "invalid length"); // invalid length
 
+  // forget the merges of a previous calculation
+  this->Nodes.resize(n);
+  for (auto &a : this->Nodes)
+    a->isMerged = false;
+
   Tv nearest_1_distance = 0, nearest_2_distance = 0;
   Ti n_i = n, s; // 'n_i' is used to set the merged id
   HClusterNode *top_node, *nearest_1, *nearest_2, *agg_node;
-- 
2.43.0


From 8b2d0d6e0cca3d056b3f2f08d588002cba7faba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 118/176] fix: NelderMead writes beyond its memory when the
 start is longer than declared

---
 src/ldt_math/optimization/nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 841fd48..8a474c9 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -36,6 +36,9 @@ void NelderMead::Minimize(
     const Matrix<Tv> &start, Tv *work, Tv *storage, const Matrix<Tv> *lower,
     const Matrix<Tv> *upper, Tv penaltyMultiplier) {
   Ti n = start.length();
+  if (n > StorageSize)
+    throw LdtException(ErrorType::kLogic, "nelder-mead",
+                       "invalid size for 'nelder-mead'");
 
   // Check if starting point is within bounds and adjust if necessary
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From 89addcb089d6af3ff28ff9a974bc71bf318b7399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 119/176] fix: VARMA restrictions with constants read beyond
 them and are ignored

---
 .../modeling/time_series/varma/varma.cpp         | 16 ++++++++++------
 .../modeling/time_series/varma/varma_sizes.cpp   |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index fe01761..ecfd74a 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -149,8 +149,8 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         pos += q * T * g;
 
         if (r) {
-          xtkronr = Matrix<Tv>(&work[pos], f * g);
-          pos += f * g; //(X' o I)r
+          xtkronr = Matrix<Tv>(&work[pos], T * g);
+          pos += T * g; //(X' o I)r
         }
       }
       int info;
@@ -263,7 +263,7 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         Result.y.CopyTo00(vecY);
         if (r) {
           Result.Xt.KronIden0(g, xtkronI);
-          xtkronI.TrDot0(*r, xtkronr); // (X' o I)r
+          xtkronI.Dot0(*r, xtkronr); // (X' o I)r
           vecY.Subtract0(xtkronr, vecY);
         }
         xtkronI.Restructure0(f * g, T * g); // (X o I)
@@ -384,10 +384,12 @@ Matrix<Tv>& x) -> Tv { return MlFunction(x, model, R, r, Pi, Xi, Ri);
 
 }*/
 
-void SetDetails(Varma &varma, const Matrix<Tv> *R) {
+void SetDetails(Varma &varma, const Matrix<Tv> *R, const Matrix<Tv> *r) {
   if (R) {
     R->Dot0(varma.Result.gamma,
             varma.Result.coef); // don't check the dimension
+    if (r)
+      varma.Result.coef.Add0(*r, varma.Result.coef);
     auto dig = std::make_unique<Tv[]>(varma.Result.gammavar.RowsCount);
     auto mdig = Matrix<Tv>(dig.get(), varma.Result.gammavar.RowsCount, 1);
     varma.Result.gammavar.GetDiag(mdig);
@@ -464,7 +466,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     Result.gamma.CopyTo00(Result.coef);
 
     if (mDoDetails) {
-      SetDetails(*this, R);
+      SetDetails(*this, R, r);
       // logarithm Likelihood
       auto copsigma2 = std::make_unique<Tv[]>(Result.sigma2.length());
       auto mcopsigma2 = Matrix<Tv>(copsigma2.get(), g, g);
@@ -558,11 +560,13 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     R->Dot0(Result.gamma, Result.coef); // don't check the dimension
   else
     Result.gamma.CopyTo00(Result.coef);
+  if (R && r)
+    Result.coef.Add0(*r, Result.coef);
 
   if (mDoDetails) {
     // logarithm Likelihood
     CalculateGoodness(*this, T, g, f, Result.Optim.FunctionValue);
-    SetDetails(*this, R);
+    SetDetails(*this, R, r);
   }
 }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 7cefc21..b98c0c8 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -212,7 +212,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
     WorkSize += T * f;
     if (isRestricted) {
       WorkSize += q * g * f + q * T * g;
-      WorkSize += f * g; // if has 'r'
+      WorkSize += g * T; // if has 'r'
     }
   }
   if (sizes.HasDiff)
-- 
2.43.0


From 87f2943e4a85ab09ec5769f407974dcefbc7c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 120/176] fix: an extended discrete choice model with fewer
 observations and more forecasts than declared writes beyond its storage

---
 .../modeling/discrete/discrete_choice_extended.cpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index f2729de..3e027ed 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -98,7 +98,7 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   // Prepare
   Data.Calculate(data, nullptr, storage);
-  p += Data.StorageSize;
+  p += temp.Data.StorageSize;
   auto useMat = &Data.Result;
 
   // create matrixes but note that we might change X by PCA
@@ -128,13 +128,13 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
     pPcaOptions->CalculateForModel(Pca, X, work, &storage[p],
                                    xForecast ? &useForecast : nullptr);
-    p += Pca.StorageSize;
+    p += temp.Pca.StorageSize;
   }
 
   // Estimate
   Model->Calculate(Y, X, mHasWeight ? &W : nullptr, &storage[p], work,
                    mNumChoices, olsInitial);
-  p += Model->StorageSize;
+  p += temp.Model->StorageSize;
 
   // predict probabilities
   if (xForecast) {
-- 
2.43.0


From 43e2a7629c9768923c598cfef24156e996aa33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 121/176] fix: an extended SUR with fewer observations and more
 projections than declared writes beyond its storage

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index c3a9f87..30a7dc1 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -89,7 +89,7 @@ void SurExtended::Calculate(const Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
   Tv *d = nullptr;
   if (mCheckNan || mHasPcaY || mHasPcaX) {
     Data.Calculate(data, nullptr, storage);
-    p += Data.StorageSize;
+    p += temp.Data.StorageSize;
     d = Data.Result.Data;
     count = Data.Result.RowsCount;
   } else {
@@ -114,7 +114,7 @@ void SurExtended::Calculate(const Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
   if (mHasPcaY) { // change data for Y
     pPcaOptionsY->CalculateForModel(PcaY, Y, work, &storage[p], nullptr,
                                     true); // throw if endogenous is constant
-    p += PcaY.StorageSize;
+    p += temp.PcaY.StorageSize;
   }
 
   auto useNewX = Matrix<Tv>();
@@ -127,7 +127,7 @@ void SurExtended::Calculate(const Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
     pPcaOptionsX->CalculateForModel(PcaX, X, work, &storage[p],
                                     numProjections > 0 ? &useNewX : nullptr,
                                     false); // ignore constant variables ?!
-    p += PcaX.StorageSize;
+    p += temp.PcaX.StorageSize;
   } else if (numProjections > 0) {
     if (newX->ColsCount != k)
       throw LdtException(ErrorType::kLogic, "sur-extended",
@@ -149,7 +149,7 @@ void SurExtended::Calculate(const Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
 
   // Estimate
   Model.Calculate(Y, X, &storage[p], work, R, sigSearchMaxProb);
-  p += Model.StorageSize;
+  p += temp.Model.StorageSize;
 
   if (checks) {
     if (checks->mCheckCN_all &&
-- 
2.43.0


From d3cbfd6c9105f04ff70561de34e69cc55bf07fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 122/176] fix: a SUR simulation writes beyond its memory for
 data larger than declared

---
 src/ldt_statistics/modeling/linear/sur_simulation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur_simulation.cpp b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
index e7dfcb6..fa82707 100644
--- a/src/ldt_statistics/modeling/linear/sur_simulation.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
@@ -111,6 +111,15 @@ void SurSimulation::Calculate(Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
   Ti k = data.ColsCount - m;
   // Ti km = k * m;
 
+  auto temp = SurSimulation(data.RowsCount, m, k, mTrainPerc, mTrainFixSize,
+                            *pMetricsOut, Model.Model.mIsRestricted,
+                            Model.Model.mSigSearchMaxIter, Model.pPcaOptionsY,
+                            Model.pPcaOptionsX);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize ||
+      temp.Split.WorkSizeI > Split.WorkSizeI)
+    throw LdtException(ErrorType::kLogic, "sur-simulation",
+                       "inconsistent arguments (in SurSimulation)");
+
   Results = Matrix<Tv>(storage, (Ti)pMetricsOut->size(), m);
   Results.SetValue(0.0);
 
-- 
2.43.0


From e04b40af496e633bd1e38dc95f0256c4f3936bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 123/176] fix: VARMA writes beyond its memory for data larger
 than declared

---
 .../modeling/time_series/varma/varma.cpp         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index ecfd74a..41f2353 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -84,6 +84,18 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   if (R)
     q = R->ColsCount;
 
+  // check sizes (observations at the end of the sample are not used)
+  auto used = Matrix<Tv>(data.Data, data.RowsCount, data.ColsCount - sampleEnd);
+  auto usedSizes = VarmaSizes(Sizes);
+  usedSizes.ObsCount = used.ColsCount;
+  usedSizes.UpdateChanged();
+  auto required = VarmaStorage(mDoDetails, R != nullptr, usedSizes,
+                               mCalculateVarCoefs, &Result.Optim.Options);
+  if (required.WorkSize > Result.WorkSize ||
+      required.StorageSize > Result.StorageSize)
+    throw LdtException(ErrorType::kLogic, "varma",
+                       "inconsistent arguments (in Varma)");
+
   // set storage
   Result.SetStorage(storage, Sizes, sampleEnd);
 
@@ -92,10 +104,10 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   // Prepare Y
   Matrix<Tv> data_d;
   if (Sizes.HasDiff) {
-    Ti ds = data.ColsCount - (Ti)Sizes.DiffPoly.size() + 1;
+    Ti ds = used.ColsCount - (Ti)Sizes.DiffPoly.size() + 1;
     data_d.SetData(&work[pos], g, ds);
     pos += g * ds;
-    Difference(Sizes.DiffPoly, data, data_d);
+    Difference(Sizes.DiffPoly, used, data_d);
   } else
     data_d.SetData(data.Data, data.RowsCount, data.ColsCount);
   data_d.GetSub0(0, Sizes.ArMax, g, T, Result.y, 0, 0);
-- 
2.43.0


From 4e94e92bc467f5454013f71bc00fce29c3ccdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 124/176] fix: a VARMA forecast writes beyond its memory for
 models larger than declared

---
 .../modeling/time_series/varma/varma_forecast.cpp            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index 179ef71..b920625 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -82,6 +82,11 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
                          "inconsistent horizon");
   }
 
+  auto temp = VarmaForecast(sizes, horizon, mDoVariance, mCoefUncertainty);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
+    throw LdtException(ErrorType::kLogic, "varma-forecast",
+                       "inconsistent arguments (in VarmaForecast)");
+
   Ti g = sizes.EqsCount;
   Ti k = sizes.NumParamsEq;
   Ti diffl = sizes.DiffPoly.size() == 0 ? 0 : (Ti)(sizes.DiffPoly.size() - 1);
-- 
2.43.0


From ad1edb90c1fdca5a47eb892b6d878c460d131454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 125/176] fix: a VARMA simulation with data longer than
 declared writes beyond its memory or skips a part

---
 .../modeling/time_series/varma/varma_simulation.cpp       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..d929763 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -166,6 +166,10 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto horizons = *pHorizons;
   auto metrics = *pMetrics;
   auto sizes = *pSizes;
+  sizes.ObsCount = data.ColsCount;
+  sizes.EqsCount = data.RowsCount;
+  sizes.ExoCount = exo ? exo->RowsCount : 0;
+  sizes.UpdateChanged();
   Ti hh = (Ti)horizons.size();
   Ti hMin = horizons.at(0);
   Ti hMax = horizons.at(hh - 1);
@@ -399,7 +403,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   // we should get t:
   auto D = DatasetTs<false>(data.RowsCount, data.ColsCount, true, false);
   D.Data(data);
-  D.Update(nullptr, work);
+  D.Update(nullptr, nullptr); // just the range
   if (D.HasMissingData)
     throw LdtException(ErrorType::kLogic, "varma-simulation",
                        "missing data is found in VARMA data");
@@ -408,6 +412,8 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
                        "data is not valid");
 
   auto T = D.End - D.Start + 1;
+  sizes.ObsCount = T;
+  sizes.UpdateChanged();
   Ti mm = (Ti)metrics.size();
   Ti yy = sizes.EqsCount; // number of endogenous data
 
-- 
2.43.0


From b4f5cea6b91851cb6aa03ab62cc7bad149b57982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 126/176] fix: a pure MA model reports the condition number of
 an earlier estimation

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 41f2353..75e9e9e 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -302,6 +302,7 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
       Result.gammavar.Restructure0(q, q);
     }
     if (noestimation == false) {
+      Result.cn = -1;
       Result.gamma.SetValue(0);
       Result.resid.SetValue(0);
       Matrix<Tv>::Diagonal(Result.sigma2, INFINITY, 0); //? Inf or 0
-- 
2.43.0


From 3ff2b66c0de6ddc2454313810a90c150507f58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 127/176] fix: a VARMA simulation adds its counts, errors and
 details to those of an earlier one

---
 .../modeling/time_series/varma/varma_simulation.cpp            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d929763..fce3910 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -468,6 +468,9 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   pos += yy;
   auto lastIndex = D.End;
 
+  ValidCounts = 0;
+  Errors.clear();
+  Details.clear();
   bool useCurrentEstims;
   Ti k;
   Ti forIndex;
-- 
2.43.0


From 4a708906510bdd4fd8d15244ab20161fb75bf1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 128/176] fix: a SUR simulation adds its errors to those of an
 earlier one

---
 src/ldt_statistics/modeling/linear/sur_simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_statistics/modeling/linear/sur_simulation.cpp b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
index fa82707..89bb8f7 100644
--- a/src/ldt_statistics/modeling/linear/sur_simulation.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
@@ -149,6 +149,7 @@ void SurSimulation::Calculate(Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
   Ti i, j, s, invalidCounts = 0;
   ValidCounts = 0;
   ValidIters = 0;
+  Errors.clear();
   for (Iteration = 0; Iteration < maxIteration; Iteration++) {
     invalidCounts++;
     if (cancel)
-- 
2.43.0


From 2aaa54e59b055c979c37f27491e357c84b5788c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:02 +0000
Subject: [PATCH 129/176] fix: standard deviations in the details of a VARMA
 simulation are not set

---
 .../modeling/time_series/varma/varma_simulation.cpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index fce3910..85cdb18 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -471,6 +471,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   ValidCounts = 0;
   Errors.clear();
   Details.clear();
+  bool doStd = mDoForecastVar || KeepDetails; // Details have STDs too
   bool useCurrentEstims;
   Ti k;
   Ti forIndex;
@@ -533,7 +534,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
           act.Set0(b, k, data.Get0(actIndex + h, b));
 
         forc.SetColumnFromColumn0(k, forecast.Forecast, forIndex + h);
-        if (mDoForecastVar)
+        if (doStd)
           std.SetColumnFromColumn0(k, forecast.Variance, forIndex + h);
       } else {
         act.SetColumn0(k, NAN);
@@ -544,7 +545,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
     }
 
     // Convert to STD
-    if (mDoForecastVar) {
+    if (doStd) {
       for (int i = 0; i < co; i++)
         std.Data[i] = std::sqrt(std.Data[i]);
     }
@@ -561,7 +562,7 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
         }
       }
 
-      if (mDoForecastVar) { // transform STDs for CRPS too
+      if (doStd) { // transform STDs for CRPS too
         for (Ti a = 0; a < yy; a++) {
           auto lm = boxCoxLambdas->at(a);
           for (Ti j = 0; j < act.ColsCount; j++)
-- 
2.43.0


From 770efb0cb86a4eb0febacf5814521fccf42beaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 130/176] fix: a class of every zero or a negative number of
 years, weeks or days is parsed

---
 src/frequency/f_week_based.cpp | 3 +++
 src/frequency/f_year_based.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/frequency/f_week_based.cpp b/src/frequency/f_week_based.cpp
index f71769d..ec357f8 100644
--- a/src/frequency/f_week_based.cpp
+++ b/src/frequency/f_week_based.cpp
@@ -175,6 +175,9 @@ void FrequencyWeekBased::Parse0(const std::string &str,
                fClass == FrequencyClass::kMultiDaily) {
       result.mMulti =
           std::stoi(classStr.substr(1, classStr.length() - 1), nullptr, 10);
+      if (result.mMulti <= 0)
+        throw LdtException(ErrorType::kLogic, "freq-weekbased",
+                           "number of days or weeks must be positive");
     } else if (fClass == FrequencyClass::kDailyInWeek) {
       auto parts = std::vector<std::string>();
       SplitMultiple(classStr, std::string(":"), parts);
diff --git a/src/frequency/f_year_based.cpp b/src/frequency/f_year_based.cpp
index 2c99668..95c4b7e 100644
--- a/src/frequency/f_year_based.cpp
+++ b/src/frequency/f_year_based.cpp
@@ -180,6 +180,9 @@ void FrequencyYearBased::Parse0(const std::string &str,
     if (result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
       throw LdtException(ErrorType::kLogic, "freq-yearbased",
                          "position is outside the range of partitions");
+    if (result.mYearMulti <= 0)
+      throw LdtException(ErrorType::kLogic, "freq-yearbased",
+                         "number of years must be positive");
   } catch (...) {
     try {
       std::rethrow_exception(std::current_exception());
-- 
2.43.0


From 9732d96c1b0de9bc13b4284e2100c3647def23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 131/176] fix: a value that is not in the list is parsed as a
 list frequency

---
 src/frequency/f_list.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index ff96f32..149ef26 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -106,6 +106,11 @@ void FrequencyList<T>::Parse0(const std::string &str,
           items->push_back(boost::gregorian::date_from_iso_string(a));
       }
     }
+
+    if (items && items->size() > 0 && result.OutIndex == 0 &&
+        IndexOf(*items, result.mValue) == -1)
+      throw LdtException(ErrorType::kLogic, "freq-list",
+                         "value is not a member of the list");
   } catch (...) {
 
     try {
-- 
2.43.0


From da755739a6f32140100a91c83ca8910d40efbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 132/176] fix: list frequencies accept a value that is not in
 the list

---
 Rpackage_F/R/frequency.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Rpackage_F/R/frequency.R b/Rpackage_F/R/frequency.R
index 3ce5083..96ea460 100644
--- a/Rpackage_F/R/frequency.R
+++ b/Rpackage_F/R/frequency.R
@@ -748,6 +748,9 @@ f.list.string <- function(items, value){
   value = as.character(value)
   items = as.character(items)
 
+  if (any(value == items) == FALSE)
+    stop("invalid 'value'. It is not a member of 'items'.")
+
   res <- .F_list_string(items, value)
   res
 }
@@ -808,6 +811,9 @@ f.list.date <- function(items, value = NULL, reformat = TRUE){
   if (is.null(value))
     value <- items[[1]]
 
+  if (any(value == items) == FALSE)
+    stop("invalid 'value'. It is not a member of 'items'.")
+
   res <- .F_list_date(items, value)
   res
 }
-- 
2.43.0


From 875008984e1409267e43d48d830a4db0ca611f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 133/176] fix: a sequence of a list of dates never ends

---
 Rpackage_F/src/r_frequency.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index e6c43c7..ea2d256 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -253,6 +253,7 @@ GetFreqFromSEXP(SEXP value, std::vector<std::string> &listItems,
   }
   case FrequencyClass::kListDate: {
     getCh(f["items"], listItems);
+    listItemsDate.clear(); // it might be shared with another frequency
     for (auto const &d : listItems)
       listItemsDate.push_back(boost::gregorian::date_from_iso_string(d));
     return std::make_unique<FrequencyList<boost::gregorian::date>>(
-- 
2.43.0


From e82cbacf2faffec4fad7cc5abf866b68f243229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 134/176] fix: the position of a frequency outside of its list
 is lost

---
 Rpackage_F/src/r_frequency.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index ea2d256..493cf87 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -248,17 +248,23 @@ GetFreqFromSEXP(SEXP value, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     getCh(f["items"], listItems);
-    return std::make_unique<FrequencyList<std::string>>(
-        as<std::string>(f["value"]), &listItems);
+    auto fl = std::make_unique<FrequencyList<std::string>>("", &listItems);
+    // it might be an out-item
+    FrequencyList<std::string>::Parse0(as<std::string>(f["value"]), "Ls",
+                                       fclass, *fl, nullptr);
+    return fl;
   }
   case FrequencyClass::kListDate: {
     getCh(f["items"], listItems);
     listItemsDate.clear(); // it might be shared with another frequency
     for (auto const &d : listItems)
       listItemsDate.push_back(boost::gregorian::date_from_iso_string(d));
-    return std::make_unique<FrequencyList<boost::gregorian::date>>(
-        boost::gregorian::date_from_iso_string(as<std::string>(f["value"])),
-        &listItemsDate);
+    auto fl = std::make_unique<FrequencyList<boost::gregorian::date>>(
+        boost::gregorian::date(), &listItemsDate);
+    // it might be an out-item
+    FrequencyList<boost::gregorian::date>::Parse0(
+        as<std::string>(f["value"]), "Ld", fclass, *fl, nullptr);
+    return fl;
   }
 
   case FrequencyClass::kHourly: {
@@ -410,7 +416,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     auto f = dynamic_cast<FrequencyList<std::string> const &>(*F);
-    auto dd = F_ListString(listItems, f.mValue);
+    auto dd = F_ListString(listItems, f.ToString());
     return dd;
   }
 
@@ -420,7 +426,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
         listItems.push_back(boost::gregorian::to_iso_string(d));
     }
     auto f = dynamic_cast<FrequencyList<boost::gregorian::date> const &>(*F);
-    auto dd = F_ListDate(listItems, boost::gregorian::to_iso_string(f.mValue));
+    auto dd = F_ListDate(listItems, f.ToString());
     return dd;
   }
 
-- 
2.43.0


From cbc6d0400ed2f9d820dfdd1708842a00542e1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 135/176] fix: as.numeric does not work for variables

---
 Rpackage_F/R/variable.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 178603f..6688388 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -118,7 +118,7 @@ print.ldtv <- function(x, ...) {
 #'
 #' @return \code{data} in x.
 #' @export
-as.numeric.ldtv <- function(x, ...){
+as.double.ldtv <- function(x, ...){
   as.numeric(x$data)
 }
 
-- 
2.43.0


From e0352e6f5c57cda5bcd230cf0c46b2cb368c2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 136/176] fix: row.names does not work for variables

---
 Rpackage_F/R/variable.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 6688388..16f1201 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -149,7 +149,7 @@ row.names.ldtv <- function(x){
   if (any(class(x$startFrequency) == "ldtf") == FALSE) {
     stop("invalid frequency class")
   }
-  res <- get.seq(x$startFrequency, length(x$data))
+  res <- get.seq0(x$startFrequency, length(x$data))
   res
 }
 
-- 
2.43.0


From 1b69704857fb02accbea28038c91247cafa41f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 137/176] fix: strategies after the first one without any
 observation are lost

---
 Rpackage_F/R/helpers.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 15b6a4a..6148494 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -55,8 +55,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     rowRemove <- which(rowSums(is.na(mat)) > 0)
     if (length(rowRemove) == Nrow){
       if (printMsg)
-        cat("    breaking the loop. All rows are removed after removing the columns\n")
-      break # all rows will be removed
+        cat("    skipped. All rows are removed after removing the columns\n")
+      next # all rows will be removed
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
@@ -88,8 +88,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     colRemove <- which(colSums(is.na(mat)) > 0)
     if (length(colRemove) == Ncol){
       if (printMsg)
-        cat("    breaking the loop. All columns are removed after removing the rows\n")
-      break
+        cat("    skipped. All columns are removed after removing the rows\n")
+      next
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
-- 
2.43.0


From d9affead02476c45bdf4b5e3f46df98e96fd2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 138/176] fix: weights of data without exogenous variables
 repeat a column or stop

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index c55c3dd..9309cb4 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -165,7 +165,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     stopifnot(all(weights != 0))
     stopifnot(is.numeric(weights) || (is.matrix(weights) && ncol(weights) == 1))
     stopifnot(length(weights) == nrow(data))
-    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,(numEndo+1):ncol(data),drop=FALSE])
+    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,-(1:numEndo),drop=FALSE])
     colnames(data)[numEndo+1] <- "(Weights)"
   }
 
-- 
2.43.0


From c2535f4f1f669b1382b61be05603cf869a9296d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 139/176] fix: unknown endogenous names are accepted and a
 single column loses its dimension

---
 Rpackage/R/data.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 9309cb4..44d1978 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -106,7 +106,9 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     }
     if (is.character(endogenous)){ # reorder columns
       idx <- match(endogenous, colnames(data))
-      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
+      if (any(is.na(idx)))
+        stop("At least one name in 'endogenous' is not found in the column names of data.")
+      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx)), drop = FALSE]
     }
 
     if (addIntercept){
-- 
2.43.0


From 65963ae7fb23ce75a9dcda8b26368998bbbaefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 140/176] fix: an intercept in the second of two columns is not
 detected and missing values stop the check

---
 Rpackage/R/data.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 44d1978..9ffd30d 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -70,7 +70,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
   startFreq <- attr(data, "ldtf")
   if (is.null(equations)) { # use endogenous
     data <- as.matrix(data)
-    if (ncol(data) > 2 && get.data.check.intercept(data[,2:ncol(data)]) != -1 && addIntercept)
+    if (ncol(data) > 1 && get.data.check.intercept(data[,2:ncol(data),drop=FALSE]) != -1 && addIntercept)
       stop("Data already contains intercept. 'addIntercept' argument cannot be TRUE.")
 
     stopifnot(is.number(endogenous) || is.character(endogenous))
@@ -288,7 +288,7 @@ get.data.check.discrete <- function(data, colIndex = 1){
 #'
 get.data.check.intercept <- function(matrix) {
   for (i in seq_len(ncol(matrix))) {
-    if (all(matrix[, i] == 1))
+    if (isTRUE(all(matrix[, i] == 1)))
       return(i)
   }
   return(-1)
-- 
2.43.0


From a330a64790a840871ee7d2a3c68bb843268cb6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 141/176] fix: equations with just one variable stop

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 9ffd30d..d950849 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -359,7 +359,7 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
     }
   }
 
-  res <- res[, c(response_vars, setdiff(colnames(res), response_vars))]
+  res <- res[, c(response_vars, setdiff(colnames(res), response_vars)), drop = FALSE]
 
   if (addIntercept) {
     intercept <- rep(1, nrow(res))
-- 
2.43.0


From 43799d21e3335685c0bc5c217aab047c1d444231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 142/176] fix: removing incomplete rows drops the dimensions of
 the data

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index d950849..0efbc87 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -253,7 +253,7 @@ get.data.keep.complete <- function(data, warn = TRUE){
   if (length(incomplete_rows) > 0) {
     if (warn)
       warning(paste("Removed rows with missing observations: ", paste(incomplete_rows, collapse = ", ")))
-    data$data <- data$data[-incomplete_rows, ]
+    data$data <- data$data[-incomplete_rows, , drop = FALSE]
     data$obsCount <- nrow(data$data)
   }
   data
-- 
2.43.0


From 4c40e5256c63cb8d77dce2e3a2bc598ab8e7ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 143/176] fix: zero or negative indices are accepted in
 partitions

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 0efbc87..933abfe 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -642,7 +642,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
              function(x){
                j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
                else {sort(as.integer(x))}
-               if (any(j) < 1)
+               if (any(j < 1))
                  stop("Zero or negative index in partitions.")
                if (isInnerExogenous && any(j > data$numEndo))
                  stop("Invalid index in partitions(=", j,"). Make sure they are less than the number of endogenous variables (=", data$numEndo, ").")
-- 
2.43.0


From de5bac4d7150069ff438afc9ee582d9a3707c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 144/176] fix: names of exogenous variables in partitions or
 inner groups select other variables

---
 Rpackage/R/data.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 933abfe..9b5bba6 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -600,6 +600,12 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     return(sort(as.integer(indices)))
   }
 
+  # indices are relative to the endogenous or exogenous variables
+  endo_names <- colnames(data$data)[seq_len(data$numEndo)]
+  exo_names <- colnames(data$data)[-seq_len(data$numEndo + ifelse(data$hasWeight, 1, 0))]
+  outer_names <- if (isInnerExogenous) endo_names else exo_names
+  inner_names <- if (isInnerExogenous) exo_names else endo_names
+
   if (is.list(combinations$sizes)) {
     combinations$sizes <- lapply(combinations$sizes, function(x){
       j <- sort(as.integer(x))
@@ -640,7 +646,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     combinations$partitions <-
       lapply(combinations$partitions,
              function(x){
-               j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
+               j <- if (is.character(x)) {colnames_to_index(x, outer_names)}
                else {sort(as.integer(x))}
                if (any(j < 1))
                  stop("Zero or negative index in partitions.")
@@ -661,7 +667,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     lapply(combinations$innerGroups,
            function(x){
              j <- if (is.character(x))
-             {colnames_to_index(x, colnames(data$data))}
+             {colnames_to_index(x, inner_names)}
              else
              {sort(as.integer(x))}
              if (any(j < 1))
-- 
2.43.0


From 0835ce982031cc9a14aaaaf1b5c92e0a5234463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 145/176] fix: hierarchical clustering overwrites the distances
 of the caller

---
 Rpackage/src/r_clustering.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..5761f8e 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,8 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  NumericVector distances0 = Rcpp::clone(distances); // it gets overridden
+  auto mdistances = MatrixSym<false>(&distances0[0], numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From e095b8536c1f2244c171b6cdc310c3adcbf9302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 146/176] fix: printing the summary of a search with best items
 stops

---
 Rpackage/R/g.prints.R  | 9 ++++++---
 Rpackage/R/g.summary.R | 5 +++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 878a7e6..d6bf59c 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -182,9 +182,12 @@ print.ldt.search <- function(x, ...) {
           if (x$info$items$bestK){
             best_coefs <- values[which(sapply(values, function(y){y$info == 0 && startsWith(y$typeName, "best item for")}))]
             cat(indent, "Best significant coeffiecients [mean-1.95*std, mean, mean+1.95*std]:\n")
-            lst <- lapply(best_coefs, function(b)c(b$value$mean - 1.95 * sqrt(b$value$var),
-                                                   b$value$mean,
-                                                   b$value$mean + 1.95 * sqrt(b$value$var)))
+            lst <- lapply(best_coefs, function(b){
+              item <- if (is_summary) b else b$value # see 'summary.ldt.search'
+              c(item$mean - 1.95 * sqrt(item$variance),
+                item$mean,
+                item$mean + 1.95 * sqrt(item$variance))
+            })
             names(lst) <- sapply(best_coefs, function(b)strsplit(sub(".*'([^']*)'.*", "\\1", b$typeName), split = "'")[[1]])
             lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
             rec.print.list(lst, indent = c(indent, "  "))
diff --git a/Rpackage/R/g.summary.R b/Rpackage/R/g.summary.R
index cc34af0..05f3258 100644
--- a/Rpackage/R/g.summary.R
+++ b/Rpackage/R/g.summary.R
@@ -133,6 +133,11 @@ summary.ldt.search <- function(object, test = FALSE, ...) {
     warning("Result list is empty. Check failed estimations.")
 
   for (i in seq_along(object$results)){
+    # keep the reported item, because the value gets replaced with the estimation
+    if (is.list(object$results[[i]]$value)){
+      object$results[[i]]$mean <- object$results[[i]]$value$mean
+      object$results[[i]]$variance <- object$results[[i]]$value$variance
+    }
     object$results[[i]]$value <- summary.ldt.search.item(object = object$results[[i]],
                                                          searchResult =  object,
                                                          test = test, ...)
-- 
2.43.0


From 99a48dc2875bb2e142931c1b44b18fcec13579ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 147/176] fix: significant extreme bounds are never printed

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index d6bf59c..ede6137 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -194,7 +194,7 @@ print.ldt.search <- function(x, ...) {
           }
 
           if (x$info$items$extremeMultiplier > 0){
-            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))]
+            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
             cat(indent, "Extreme bounds (significant):\n")
             sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
-- 
2.43.0


From 33161320e19f40202b9b85df95f5d328438bd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 148/176] fix: re-estimating a model of a search transforms the
 data again or uses the lambdas of other variables

---
 Rpackage/R/bin.R   | 4 +++-
 Rpackage/R/sur.R   | 4 +++-
 Rpackage/R/varma.R | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 0fd7878..4deb445 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -282,8 +282,10 @@ estim.binary.from.search <- function(searchResult, endogenous, exogenous, extra,
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = weights,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
+  if (!is.null(search_data$lambdas)) #correct values
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
 
   estim.bin(
diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 426e980..dfded50 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -226,8 +226,10 @@ estim.sur.from.search <- function(searchResult, endogenous, exogenous, extra, ..
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = NULL,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
+  if (!is.null(search_data$lambdas)) #correct values
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.sur(
     data = data,
diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index ce0ae33..7fa2e00 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -281,7 +281,8 @@ estim.varma.from.search <- function(searchResult, endogenous, exogenous, extra,
                    lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
   attr(data, "ldt.new.appended") <- attr(search_data, "ldt.new.appended")
-  data$lambdas <- search_data$lambdas #correct value
+  if (!is.null(search_data$lambdas)) #correct values
+    data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.varma(
     data = data,
-- 
2.43.0


From 2ec282aeab83f469ad2b438f58f2cc26b8a53ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 149/176] fix: optimization options are ignored in the
 estimation of binary models

---
 Rpackage/src/r_dc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..9e8c397 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -172,6 +172,10 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
       data_.HasWeight, true, numChoices, true, data_.NewX.RowsCount,
       hasPcaX ? &pcaOptionsX0 : nullptr,
       costMatrices_.size() > 0 ? &costMatrices_ : nullptr, weightedEval);
+  model.Model->Optim.IterationMax = newton_.IterationMax;
+  model.Model->Optim.TolFunction = newton_.TolFunction;
+  model.Model->Optim.TolGradient = newton_.TolGradient;
+  model.Model->Optim.UseLineSearch = newton_.UseLineSearch;
 
   auto W = std::make_unique<double[]>(model.WorkSize);
   auto S = std::make_unique<double[]>(model.StorageSize);
@@ -212,6 +216,10 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
         hasPcaX ? &pcaOptionsX0 : nullptr, weightedEval);
     simmodel->SimulationMax = simFixSize;
     simmodel->Seed = simSeed;
+    simmodel->Optim.IterationMax = newton_.IterationMax;
+    simmodel->Optim.TolFunction = newton_.TolFunction;
+    simmodel->Optim.TolGradient = newton_.TolGradient;
+    simmodel->Optim.UseLineSearch = newton_.UseLineSearch;
 
     auto Ws = std::make_unique<double[]>(simmodel->WorkSize);
     auto WIs = std::make_unique<int[]>(simmodel->WorkSizeI);
-- 
2.43.0


From 1d9ea80a34c0267340746c365aa34a45b93b83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 150/176] fix: printing a search stops if an evaluation of a
 target has no result

---
 Rpackage/R/g.prints.R | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index ede6137..bb1a014 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -145,9 +145,10 @@ print.ldt.search <- function(x, ...) {
         cat("   Evaluation (", eName , "):\n" ,sep = "")
         indent = "     "
         if (x$info$items$model){
-          if (x$info$items$bestK > 0){
+          best <- Filter(function(y){y$typeName == "best model" && y$info == 0}, values)
+          if (length(best) > 0){
 
-            best <- values[which(sapply(values, function(y){y$typeName == "best model" && y$info == 0}))][[1]]
+            best <- best[[1]]
             cat(indent, "Best model:\n")
             if (is_summary){
               cat("\n+++++++++++++++ MODEL SUMMARY +++++++++++++++++\n")
@@ -164,8 +165,9 @@ print.ldt.search <- function(x, ...) {
 
           }
 
-          if (x$info$items$inclusion){
-            inclusion <- values[which(sapply(values, function(y){y$typeName == "inclusion"}))][[1]]
+          inclusion <- Filter(function(y){y$typeName == "inclusion" && any(!is.na(y$value[,1]))}, values)
+          if (length(inclusion) > 0){
+            inclusion <- inclusion[[1]]
             cat(indent, "Inclusion weights average:\n")
             mi <- which.max(ifelse(is.na(inclusion$value[,1]), -Inf, inclusion$value[,1])) #ignore NA
             rec.print.list(list(
@@ -179,8 +181,8 @@ print.ldt.search <- function(x, ...) {
 
         if (x$info$items$type1){
 
-          if (x$info$items$bestK){
-            best_coefs <- values[which(sapply(values, function(y){y$info == 0 && startsWith(y$typeName, "best item for")}))]
+          best_coefs <- Filter(function(y){y$info == 0 && startsWith(y$typeName, "best item for")}, values)
+          if (length(best_coefs) > 0){
             cat(indent, "Best significant coeffiecients [mean-1.95*std, mean, mean+1.95*std]:\n")
             lst <- lapply(best_coefs, function(b){
               item <- if (is_summary) b else b$value # see 'summary.ldt.search'
@@ -193,8 +195,9 @@ print.ldt.search <- function(x, ...) {
             rec.print.list(lst, indent = c(indent, "  "))
           }
 
-          if (x$info$items$extremeMultiplier > 0){
-            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
+          extremeB <- Filter(function(y){startsWith(y$typeName, "extreme")}, values)
+          if (length(extremeB) > 0){
+            extremeB <- extremeB[[1]]
             cat(indent, "Extreme bounds (significant):\n")
             sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
@@ -207,7 +210,7 @@ print.ldt.search <- function(x, ...) {
           }
 
           if (length(x$info$items$cdfs) > 0){
-            cdfs <- values[which(sapply(values, function(y){ y$info == 0 && startsWith(y$typeName, "cdf")}))]
+            cdfs <- Filter(function(y){ y$info == 0 && startsWith(y$typeName, "cdf")}, values)
             cat(indent, "CDF (significant):\n")
             if (length(cdfs) == 0)
               cat(c(indent, "  "), "CDF at 0 is not available.")
@@ -224,8 +227,9 @@ print.ldt.search <- function(x, ...) {
             }
           }
 
-          if (x$info$items$mixture4){
-            mixture <- values[which(sapply(values, function(y){startsWith(y$typeName, "mixture")}))][[1]]
+          mixture <- Filter(function(y){startsWith(y$typeName, "mixture")}, values)
+          if (length(mixture) > 0){
+            mixture <- mixture[[1]]
             cat(indent, "Mixture significant [mean-1.95*std, mean, mean+1.95*std]:\n")
             lst <- lapply(1:nrow(mixture$value), function(i)c(mixture$value[i,1] - 1.95 * sqrt(mixture$value[i,2]),
                                                               mixture$value[i,1],
-- 
2.43.0


From c48df30a788d1a5aed43b2ea4d3c23c7870280f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:10 +0000
Subject: [PATCH 151/176] fix: weights are never used in the evaluations of a
 search of binary models

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 9e8c397..d15df66 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From 106d9409e51506010f620c69cd82c5d8db1b8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:10 +0000
Subject: [PATCH 152/176] fix: printing a model with restrictions or without
 p-values stops if no coefficient is significant

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index bb1a014..a6817d4 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -308,7 +308,7 @@ print.ldt.estim <- function(x, ...) {
     df <- data.frame(coefs[,dep_var], stds[,dep_var], tzstats[,dep_var], pValues[,dep_var])
     rownames(df) <- rownames(coefs)
 
-    ms <- max(ifelse(df[,4] < .001, 3,
+    ms <- max(1, ifelse(df[,4] < .001, 3,
                      ifelse(df[,4] < .01, 2,
                             ifelse(df[,4] < .1, 1, 0))), na.rm = TRUE)
     stars <- logical(nrow(df))
-- 
2.43.0


From 578d0dca8d6eb282688a12f0001ca31bb153647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 153/176] fix: exogenous data of an equation with one variable
 is not a matrix

---
 Rpackage/R/g.regression.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index bcf2834..2890544 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -53,7 +53,7 @@ exogenous <- function(object, equation = 1, ...){
   X <- object$estimations$X
   if (!is.null(object$estimations$isRestricted)){
     not_restricted <- as.logical(1 - object$estimations$isRestricted[,equation])
-    X <- X[,not_restricted]
+    X <- X[,not_restricted,drop=FALSE]
   }
   X
 }
-- 
2.43.0


From 20c1f80ab8c70a88a20e181a553abef6028879ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 154/176] fix: coefficients of some equations are not a matrix
 or use the restrictions of other equations

---
 Rpackage/R/g.regression.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 2890544..aa76e38 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -75,7 +75,7 @@ exogenous <- function(object, equation = 1, ...){
 #' @export
 coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...){
   equations <- checkEquation(object, equations, FALSE)
-  c <- object$estimations$coefs[, equations]
+  c <- object$estimations$coefs[, equations, drop=FALSE]
   if (removeZeroRest == FALSE ||
       is.null(object$estimations$isRestricted) ||
       sum(object$estimations$isRestricted) == 0)
@@ -83,7 +83,7 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 
   result <- list()
   for (j in 1:ncol(c)){
-    notRest <- as.logical(1 - object$estimations$isRestricted[,j])
+    notRest <- as.logical(1 - object$estimations$isRestricted[,equations[j]])
     result[[colnames(c)[j]]] <- c[,j,drop=FALSE][notRest]
   }
   result
-- 
2.43.0


From effbc3c1d1474c38fc490bfa1b591af620da833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 155/176] fix: residuals and fitted values of VARMA models are
 not available

---
 Rpackage/R/g.plots.R      |  2 +-
 Rpackage/R/g.regression.R | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index b922da7..683e876 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -57,7 +57,7 @@ plot.ldt.estim <- function(x,
   stopifnot(type %in% c(1, 2, 3, 4, 5, 6))
 
   fitted <- fitted(x, equation = equation)
-  fitted <- fitted - min(fitted)
+  fitted <- fitted - min(fitted, na.rm = TRUE)
   if (type == 1)
     residuals <- resid(x, equation = equation, standardized = FALSE, pearson = TRUE)
   else
diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index aa76e38..58cc6aa 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -90,6 +90,12 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 }
 
 
+# number of omitted observations at the beginning of the data (for VARMA)
+omitted.count <- function(object){
+  added <- attr(object$info$data, "ldt.new.appended")
+  nrow(object$info$data$data) - (if (is.null(added)) 0 else added) - nrow(object$estimations$resid)
+}
+
 hatvalues0 <- function(object, equation, addNA = TRUE){
   #TODO:can be more efficient
   method <- tolower(attr(object, "method"))
@@ -100,7 +106,7 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
   res <- diag(H)
 
   if (addNA && method == "varma"){
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
+    omit_obs <- omitted.count(object)
     res <- c(rep(NA, omit_obs), res)
   }
   res
@@ -110,7 +116,7 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
   method <- tolower(attr(object, "method"))
   omit_obs <- 0
   if (method == "varma")
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
+    omit_obs <- omitted.count(object)
 
   h <- hatvalues0(object, equation, FALSE)
   r <- residuals.ldt.estim(object, equation)
@@ -172,9 +178,8 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     }
   }
 
-  omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid) # for VARMA
   if (method == "varma")
-    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omit_obs), resid)
+    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omitted.count(object)), resid)
 
 
   resid
@@ -194,7 +199,7 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
 fitted.ldt.estim <- function(object, equations = NULL, ...){
   equations <- checkEquation(object, equations, FALSE)
   resid <- residuals.ldt.estim(object, equations = equations, standardized = FALSE, pearson = FALSE)
-  y <- object$info$data$data[, equations, drop=FALSE]
+  y <- object$info$data$data[seq_len(nrow(resid)), equations, drop=FALSE]
   y - resid
 }
 
-- 
2.43.0


From f6fa15b0b26df4c12b7bf9359421c901f61d1cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 156/176] fix: standardized residuals depend on the other
 equations or stop

---
 Rpackage/R/g.regression.R | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 58cc6aa..29cb8a4 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -165,12 +165,12 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     resid <- object$estimations$resid[, equations, drop=FALSE]
 
   if (standardized) {
-    for (i in equations){
-      hii <- hatvalues0(object, equation = i, addNA = FALSE)
-      s <- sd(resid)
+    for (i in seq_along(equations)){
+      hii <- hatvalues0(object, equation = equations[i], addNA = FALSE)
+      s <- sd(resid[,i])
       if (object$info$data$hasWeight){
-        weights <- object$info$data[,object$info$data$numEndo + 1]
-        resid[,i] <- resid[,i] / (s * weights * sqrt(1 - hii))
+        weights <- object$info$data$data[,object$info$data$numEndo + 1]
+        resid[,i] <- resid[,i] / (s * sqrt(weights * (1 - hii)))
       }
       else{
         resid[,i] <- resid[,i] / (s * sqrt(1 - hii))
-- 
2.43.0


From 55bfd029d76500dea98a8dfe4903a9e1afd3201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 157/176] fix: Cook's distance is not the documented one

---
 Rpackage/R/g.regression.R | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 29cb8a4..c9447ef 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -124,13 +124,12 @@ cooks.distance0 <- function(object, equation, addNA = TRUE){
     r <- r[(omit_obs+1):length(r)]
 
   mse <- sum(r^2)/length(r)
-  c <- coef.ldt.estim(object, equations = equation, removeZeroRest = TRUE)
-  p <- length(c[1])
+  p <- ncol(exogenous(object, equation)) # number of estimated coefficients
   if (object$info$data$hasWeight){
     stop("Cook's distance is not implemented for weighted observations.") # couldn't find a reference
   }
   else
-    res <- r^2 * h / (p*mse*(1-h^2))
+    res <- r^2 * h / (p*mse*(1-h)^2)
 
   if (addNA && omit_obs > 0)
     res <- c(rep(NA, omit_obs), res)
-- 
2.43.0


From 0bbbd28d1c00c8253a97f024755ebb9029cf3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 158/176] fix: predictions of binary models stop

---
 Rpackage/R/g.regression.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index c9447ef..97b9c36 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -266,8 +266,12 @@ predict.ldt.estim <- function(object, ...){
     stop("Invalid class. An 'ldt.estim' object is expected.")
 
   res <- list()
-  res$means <- object$projection$means
-  res$vars <- object$projection$vars
+  if (is.list(object$projection)){
+    res$means <- object$projection$means
+    res$vars <- object$projection$vars
+  }
+  else # probabilities
+    res$means <- object$projection
 
   res$method <- attr(object, "method")
   res$newX <- object$info$data$newX
-- 
2.43.0


From b88c509b28c789b6ba318c04604b5ef8c46baf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 159/176] fix: the frequency of the data is not used in
 predictions

---
 Rpackage/R/g.regression.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 97b9c36..58203ba 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -321,7 +321,7 @@ predict.ldt.estim.varma <- function(object,
 
   hasVar = !is.null(object$prediction$vars)
   if (is.null(startFrequency))
-    startFrequency = object$info$startFrequency
+    startFrequency = object$info$data$startFrequency
   if (is.null(startFrequency))
     startFrequency = tdata::f.cross.section(1)
 
-- 
2.43.0


From 0461363e87184670a1e7a4fb7dcff593d54e437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:43 +0000
Subject: [PATCH 160/176] fix: predictions cannot be plotted by the name of the
 variable

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 683e876..b385680 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -328,7 +328,7 @@ plot.ldt.varma.prediction <- function(x,
 
   stopifnot(is.number(variable) || is.character(variable))
   if (is.character(variable)){
-    variable <- match(variable, colnames(x$info$y))
+    variable <- match(variable, colnames(x$means))
     if (is.na(variable))
       stop("Invalid variable name.")
   }
-- 
2.43.0


From cec62975ac1bf0e52284251fd42dca7c2be3db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:03 +0000
Subject: [PATCH 161/176] fix: functions for the equations of a model stop if
 components of endogenous data are used or a name is unknown

---
 Rpackage/R/g.regression.R | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 58203ba..c2378c1 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -5,13 +5,13 @@ checkEquation <- function(object, equations, justOne){
   if (justOne && length(equations) != 1)
     stop("Length of 'equation' must be one.")
   if (justOne == FALSE && is.null(equations))
-    equations <- c(1L:object$info$data$numEndo)
+    equations <- seq_len(ncol(object$estimations$Y))
   stopifnot(is.numeric(equations) || is.character(equations))
   if (is.numeric(equations))
     equations <- as.integer(equations)
   else
-    equations <- match(equations, colnames(object$info$data$data))
-  if (any(equations < 1 | equations > object$info$data$numEndo)){
+    equations <- match(equations, colnames(object$estimations$Y))
+  if (any(is.na(equations) | equations < 1 | equations > ncol(object$estimations$Y))){
     if (justOne)
       stop("'equation' is not found.")
     else
@@ -198,7 +198,12 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
 fitted.ldt.estim <- function(object, equations = NULL, ...){
   equations <- checkEquation(object, equations, FALSE)
   resid <- residuals.ldt.estim(object, equations = equations, standardized = FALSE, pearson = FALSE)
-  y <- object$info$data$data[seq_len(nrow(resid)), equations, drop=FALSE]
+  if (is.null(object$info$pcaOptionsY))
+    y <- object$info$data$data[seq_len(nrow(resid)), equations, drop=FALSE]
+  else { # equations are for the principal components
+    y <- object$estimations$Y[, equations, drop=FALSE]
+    y <- rbind(matrix(NA, ncol = ncol(y), nrow = nrow(resid) - nrow(y)), y)
+  }
   y - resid
 }
 
-- 
2.43.0


From f4fad65ebab6fd5140b364f2a4d973bf58130d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:03 +0000
Subject: [PATCH 162/176] fix: failures of the second and later steps of a
 step-wise search are lost

---
 Rpackage/R/steps.R | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e00ca4e..c256506 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -145,9 +145,8 @@ combine.search <- function(list, method) {
         }
       }
 
-      if (added == FALSE){
-        ind <- length(result$counts$failedDetails) + 1
-      }
+      if (added == FALSE)
+        result$counts$failedDetails[[length(result$counts$failedDetails) + 1]] <- f
     }
 
     new_best_models <- newR$results[which(sapply(newR$results, function(item) item$typeName == "best model"))]
-- 
2.43.0


From 3090d63b3894c0f0b91c7d4d8ddd03f588fc1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:03 +0000
Subject: [PATCH 163/176] fix: a step-wise search reports fewer best models
 than requested

---
 Rpackage/R/steps.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index c256506..edd12b2 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -177,7 +177,7 @@ combine.search <- function(list, method) {
           result$results[ids] <- NA
           bms <- append(current_best_models, nbm)
           nbms <- bms[order(sapply(bms, function(b) b$value$metric),
-                            decreasing = is_pos_oriented)][1:length(ids)]
+                            decreasing = is_pos_oriented)][1:min(list[[1]]$info$items$bestK,length(bms))]
           for (k in 1:length(nbms)) #update info
             nbms[[k]]$info <- k-1
           to_be_added[[length(to_be_added) + 1]] <- nbms
-- 
2.43.0


From 214375723215babbd12453fa84b3396c79bda223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:38 +0000
Subject: [PATCH 164/176] fix: the number of variables in the steps of a search
 is ignored and weighted data stop

---
 Rpackage/R/steps.R | 57 +++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index edd12b2..97e2a3f 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -310,7 +310,9 @@ search.steps <- function(method, isInnerExogenous, ...) {
   target_names <- endo_names[1:dots$combinations$numTargets]
   exo_names <- colnames(dots$data$data)[(dots$data$numEndo + ifelse(dots$data$hasWeight,2,1)):ncol(dots$data$data)]
 
-  fixed_names <- c(target_names, fixedNames)
+  fixed_names <- unique(c(target_names, fixedNames))
+  if (method == "bin") # models must contain the intercept
+    fixed_names <- unique(c(fixed_names, exo_names[1]))
 
   # first target and first metric
   tName <- target_names[1]
@@ -322,9 +324,6 @@ search.steps <- function(method, isInnerExogenous, ...) {
   }
   estims <- list()
 
-  pre_endo_names <- endo_names
-  pre_exo_names <- exo_names
-
   # Main Loop
   for (i in c(1:length(sizes))) {
     if(i == 1) {
@@ -337,7 +336,10 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     size_i <- sizes[[i]]
-    num_var_i <- ifelse(is.na(counts[[i]]), ncol(data_i$data), num_var_i) # it is generally less than number of columns in data
+    pre_names <- setdiff(colnames(data_i$data), "(Weights)")
+    pre_endo_names <- pre_names[seq_len(data_i$numEndo)]
+    pre_exo_names <- setdiff(pre_names, pre_endo_names)
+    num_var_i <- ifelse(is.na(counts[[i]]), length(pre_names), min(counts[[i]], length(pre_names))) # it is generally less than number of variables in data
 
     if (num_var_i < length(fixed_names)){
       stop("Invalid 'stepsNumVariables'. Requested number of variables (=", num_var_i ,") in this step is less than the number of fixed variables (names=", paste0(fixed_names, collapse = "; "),")")
@@ -366,11 +368,11 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     names_i <- NULL
-    if (num_var_i == ncol(data_i$data))
-      names_i <- colnames(data_i$data)
+    if (num_var_i == length(pre_names))
+      names_i <- pre_names
     else{ # we should remove some variables from the data using previous estimation
       if (i == 1){
-        names_i <- colnames(data_i$data)[1:num_var_i]
+        names_i <- unique(c(fixed_names, pre_names))[1:num_var_i]
         warning("Variables are removed from the analysis in the first step, without evaluation. It is recommended to use 'NA' as the first element of 'stepsNumVariables' argument.")
       }
       else{
@@ -386,48 +388,51 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     # use 'names_i' to adjust data and combinations:
-    endo_names_i <- intersect(names_i, endo_names)
-    exo_names_i <- intersect(names_i, exo_names)
-    endo_names_removed_i <- setdiff(endo_names_i, pre_endo_names)
-    exo_names_removed_i <- setdiff(exo_names_i, pre_exo_names)
+    endo_names_i <- intersect(pre_endo_names, names_i)
+    exo_names_i <- intersect(pre_exo_names, names_i)
+    endo_names_removed_i <- setdiff(pre_endo_names, endo_names_i)
+    exo_names_removed_i <- setdiff(pre_exo_names, exo_names_i)
     endo_indices_removed_i <- match(endo_names_removed_i, pre_endo_names)
     exo_indices_removed_i <- match(exo_names_removed_i, pre_exo_names)
-    pre_endo_names <- endo_names_i
-    pre_exo_names <- exo_names_i
 
-    if (dots$data$hasWeight) # insert weights
-      names_i <- append(names, "(Weights)", after = length(endo_names_i))
+    names_i <- c(endo_names_i, if (data_i$hasWeight) "(Weights)", exo_names_i)
     indices_i <- match(names_i, colnames(data_i$data))
     if (any(is.na(indices_i)))
       stop("A selected variable is not present in the 'data'!")
 
+    numEndo_pre <- data_i$numEndo
     if (length(indices_i) != ncol(data_i$data)){
-      data_i$data <- data_i$data[, indices_i]
+      data_i$data <- data_i$data[, indices_i, drop = FALSE]
+      if (!is.null(data_i$newX))
+        data_i$newX <- data_i$newX[, exo_names_i, drop = FALSE]
+      if (!is.null(data_i$lambdas))
+        data_i$lambdas <- data_i$lambdas[match(endo_names_i, pre_endo_names)]
+      data_i$hasIntercept <- data_i$hasIntercept && !(pre_exo_names[1] %in% exo_names_removed_i)
       data_i$numEndo <- length(endo_names_i)
       data_i$numExo <- length(exo_names_i)
     }
 
     combinations_i$sizes <- size_i
-    if (isInnerExogenous){
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, exo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, endo_indices_removed_i - 1)
-    }else{
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, endo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, exo_indices_removed_i - 1)
-    }
     # reset:
     # zero-based indexation and moving exogenous indices:
     # see the end of get.indexation function
     for (j in c(1:length(combinations_i$partitions))){
       combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] + 1
       if (isInnerExogenous == FALSE)
-        combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] - data_i$numEndo
+        combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] - numEndo_pre
     }
     for (j in c(1:length(combinations_i$innerGroups))){
       combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] + 1
       if (isInnerExogenous)
-        combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] - data_i$numEndo
+        combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] - numEndo_pre
     }
+    # remove the indices of the removed variables:
+    combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, if (isInnerExogenous) exo_indices_removed_i else endo_indices_removed_i)
+    combinations_i$innerGroups <- combinations_i$innerGroups[lengths(combinations_i$innerGroups) > 0]
+    combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, if (isInnerExogenous) endo_indices_removed_i else exo_indices_removed_i)
+    is_empty <- lengths(combinations_i$partitions) == 0
+    combinations_i$numFixPartitions <- combinations_i$numFixPartitions - sum(is_empty[seq_len(combinations_i$numFixPartitions)])
+    combinations_i$partitions <- combinations_i$partitions[!is_empty]
 
 
     dots$data <- data_i
-- 
2.43.0


From 8835587d40387797df90437d6e546072365ca1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:07 +0000
Subject: [PATCH 165/176] fix: names of the bound data can be freed by the
 garbage collector while they are set

---
 Rpackage_F/src/r_variable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index 9498080..b7b7f2c 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -96,9 +96,9 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
                        "invalid out-of-sample size (check 'horizon')");
 
   auto info = IntegerMatrix(n, 5);
-  colnames(info) =
+  colnames(info) = StringVector(
       wrap(std::vector<const char *>({"Start_Index", "End_Index", "Has_Missing",
-                                      "Interpolated_Count", "Lags_Leads"}));
+                                      "Interpolated_Count", "Lags_Leads"})));
 
   auto listItems = std::vector<std::vector<std::string>>(n);
   auto listItemsDate = std::vector<std::vector<boost::gregorian::date>>(n);
@@ -185,7 +185,7 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   }
 
   auto res = NumericMatrix(vs.NumObs, vs.Names.size(), vs.Data.begin());
-  colnames(res) = wrap(vs.Names);
+  colnames(res) = StringVector(wrap(vs.Names));
   auto f0 = vs.StartFrequency.get()->Clone();
   auto f = f0.get();
   std::vector<std::string> rns;
@@ -193,7 +193,7 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
     rns.push_back(f->ToString());
     f->Next(1);
   }
-  rownames(res) = wrap(rns);
+  rownames(res) = StringVector(wrap(rns));
 
   std::vector<std::string> listItems0;
   std::vector<boost::gregorian::date> listItemsDate0;
-- 
2.43.0


From d99af03cfc03c9ed5ec6d74c9daf721b47c49196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:07 +0000
Subject: [PATCH 166/176] fix: reported models of a search can be overwritten
 by the garbage collector

---
 Rpackage/src/r_ldt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..76e475f 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -317,7 +317,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = StringVector(wrap(rowNames));
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -327,7 +327,7 @@ NumericMatrix as_matrix(const ldt::Matrix<double> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = StringVector(wrap(colNames));
   }
   return res;
 }
@@ -356,7 +356,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of rows/row_names."));
     }
-    rownames(res) = wrap(rowNames);
+    rownames(res) = StringVector(wrap(rowNames));
   }
   if (colNames.size() > 0) {
     if ((int)colNames.size() != mat.ColsCount) {
@@ -364,7 +364,7 @@ IntegerMatrix as_imatrix(const ldt::Matrix<int> &mat,
       throw LdtException(ErrorType::kLogic, "R-ldt",
                          std::string("invalid number of columns/col_names."));
     }
-    colnames(res) = wrap(colNames);
+    colnames(res) = StringVector(wrap(colNames));
   }
   return res;
 }
@@ -460,7 +460,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
   for (auto &b : list) {
     j++;
 
-    std::vector<SEXP> value;
+    std::vector<Rcpp::RObject> value; // protects the elements
     std::vector<std::string> names;
 
     value.push_back(wrap(b->Metric));
-- 
2.43.0


From 5df85fd3dcae39952309aeb7fba116c0c4135816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 167/176] fix: sim.bin stops for a single coefficient or
 without weights and might remove a wrong observation

---
 Rpackage/R/bin.R | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 4deb445..8bd7718 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -372,7 +372,7 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   }
 
   # Generate the exogenous variables
-  if (nVar == 0) {
+  if (nVar <= 1) { # just an intercept
     x <- matrix(1, ncol = 1, nrow = nObs * sampleFactor)
     colnames(x) <- c("Intercept")
   } else {
@@ -411,7 +411,8 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   nPos <- round(nObs * pPos)
   posToRemove <- sum(y) - nPos
   if (posToRemove > 0) {
-    posIndexes <- sample(which(y == 1), posToRemove)
+    posIndexes <- which(y == 1)
+    posIndexes <- posIndexes[sample.int(length(posIndexes), posToRemove)]
     y <- y[-posIndexes, , drop = FALSE]
     x <- x[-posIndexes, , drop = FALSE]
     w <- w[-posIndexes, , drop = FALSE]
@@ -424,7 +425,8 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   # Remove excess negative observations
   negToRemove <- sum(!y) - (nObs - nPos)
   if (negToRemove > 0) {
-    negIndexes <- sample(which(y == 0), negToRemove)
+    negIndexes <- which(y == 0)
+    negIndexes <- negIndexes[sample.int(length(negIndexes), negToRemove)]
     y <- y[-negIndexes, , drop = FALSE]
     x <- x[-negIndexes, , drop = FALSE]
     w <- w[-negIndexes, , drop = FALSE]
@@ -436,10 +438,12 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
 
   if (toNumeric){
     y = matrix(as.numeric(y), ncol = 1)
-    w = matrix(as.numeric(w), ncol = 1)
+    if (!is.null(w))
+      w = matrix(as.numeric(w), ncol = 1)
   }
   colnames(y) <- "Y"
-  colnames(w) <- "W"
+  if (!is.null(w))
+    colnames(w) <- "W"
   p1 = matrix(p1, ncol = 1)
   colnames(p1) <- "P1"
 
-- 
2.43.0


From 972af034ef66d297b764d6d91d4d289298041007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 168/176] fix: sim.varma stops or reports an intercept if it is
 not requested

---
 Rpackage/R/varma.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index 7fa2e00..b086ee7 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -554,7 +554,8 @@ sim.varma <- function(sigma = 2L, arList = 1L, maList = 0L,
   # Generate a random intercept if intercept is TRUE
   if (is.logical(intercept) && intercept) {
     intercept <- matrix(rnorm(p), ncol = 1)
-  }
+  } else if (is.logical(intercept))
+    intercept <- NULL
 
   # Check the dimensions of the input arguments
   if (length(arList) > 0 && any(sapply(arList, nrow) != p | sapply(arList, ncol) != p)) {
-- 
2.43.0


From 32f18fe5905271107f1119a95709982a064d328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 169/176] fix: get.varma.params does not report the intercept

---
 Rpackage/R/varma.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index b086ee7..1da4c99 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -804,7 +804,7 @@ get.varma.params <- function(coef, numAR = 1, numMA = 0,
 
 
 
-  return(list(arList = ar, integer = int,
+  return(list(arList = ar, intercept = int,
               exoCoef = exog, maList = ma))
 }
 
-- 
2.43.0


From 6727ea8dc47662d740e5c5f8987c4f89209a76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 170/176] fix: coefs.table loses the equations with a formatted
 name

---
 Rpackage/R/g.prints.R | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index a6817d4..0bbb52c 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -612,7 +612,6 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     depList <- unique(unlist(lapply(estimList, function(e) colnames(e$estimations$coefs))))
   else
     depList <- as.character(depList)
-  depList <- lapply(depList, function(n) textFun(n, "dname"))
 
   col_names <- unlist(lapply(seq_along(col_names), function(i) {
     rep(col_names[i], sum(colnames(estimList[[i]]$estimations$coefs) %in% depList))
@@ -647,7 +646,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     for (d in depList){
       if (!d %in% colnames(e$estimations$coefs)) next
       j <- j + 1
-      r_table[1, j] <- d
+      r_table[1, j] <- textFun(d, "dname")
 
       ns <- row.names(e$estimations$coefs)
       i <- 0
-- 
2.43.0


From ff3eb10097e4519c30e3166a6ed1025fffc50c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 171/176] fix: print of a VARMA model counts the new data as
 omitted observations

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 0bbb52c..a5e8bf0 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -354,7 +354,7 @@ print.ldt.estim <- function(x, ...) {
   cat("----------------------------------------------------\n")
 
   cat("Number of observations: ", nrow(x$estimations$Y), "\n")
-  omitted_dp <- nrow(x$info$data$data) - nrow(x$estimations$Y)
+  omitted_dp <- omitted.count(x)
   if (omitted_dp != 0)
     cat("Number of omitted data-points: ", omitted_dp, "\n")
   cat("Number of equations in the system: ", x$info$data$numEndo, "\n")
-- 
2.43.0


From d0f636554274741de62189f38645e17947142210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 172/176] fix: estimates and predictions of a VARMA model are
 misplaced if the last observations are missing

---
 Rpackage/R/g.regression.R | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index c2378c1..15e74a6 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -90,10 +90,17 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 }
 
 
+# index of the last row of the data used in the estimation (for VARMA). The rest
+# are new or missing at the end.
+last.used.row <- function(object){
+  max(which(stats::complete.cases(object$info$data$data)))
+}
+
 # number of omitted observations at the beginning of the data (for VARMA)
 omitted.count <- function(object){
-  added <- attr(object$info$data, "ldt.new.appended")
-  nrow(object$info$data$data) - (if (is.null(added)) 0 else added) - nrow(object$estimations$resid)
+  if (tolower(attr(object, "method")) != "varma")
+    return(nrow(object$info$data$data) - nrow(object$estimations$resid))
+  last.used.row(object) - nrow(object$estimations$resid)
 }
 
 hatvalues0 <- function(object, equation, addNA = TRUE){
@@ -313,10 +320,7 @@ predict.ldt.estim.varma <- function(object,
   if (is.null(object$prediction) || is.null(object$prediction$means))
     stop("Predictions are not available. Make sure you requested prediction in the 'estim.varma(...)' function.")
 
-  added <- attr(object$info$data, "ldt.new.appended")
-  ldata <- nrow(object$info$data$data)
-  if (!is.null(added) && added > 0)
-    ldata <- nrow(object$info$data$data) - added
+  ldata <- last.used.row(object)
 
   aY <- object$info$data$data[1:ldata,
                               colnames(object$estimations$Y), drop=FALSE]#don't use Y (It is differenced in integrated models)
-- 
2.43.0


From a98c25196a335483faa07eba2afe7afd88998b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 173/176] fix: predict stops for a VARMA model with the
 principal components of the endogenous data

---
 Rpackage/R/g.regression.R | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 15e74a6..ab0db35 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -322,11 +322,18 @@ predict.ldt.estim.varma <- function(object,
 
   ldata <- last.used.row(object)
 
-  aY <- object$info$data$data[1:ldata,
-                              colnames(object$estimations$Y), drop=FALSE]#don't use Y (It is differenced in integrated models)
-
   if (is.na(actualCount))
-    actualCount <- nrow(aY)
+    actualCount <- ldata
+
+  if (is.null(object$info$pcaOptionsY))
+    aY <- object$info$data$data[1:ldata,
+                                colnames(object$estimations$Y), drop=FALSE]#don't use Y (It is differenced in integrated models)
+  else { # principal components, which are available for the estimation sample
+    if (actualCount > 0 && any(object$info$params[c(2,5)] > 0))
+      stop("Actual values of the principal components are not available in an integrated model.")
+    aY <- object$estimations$Y
+    aY <- rbind(matrix(NA, ncol = ncol(aY), nrow = ldata - nrow(aY)), aY)
+  }
 
   hasVar = !is.null(object$prediction$vars)
   if (is.null(startFrequency))
-- 
2.43.0


From 55995d39a611db810695eab1c7fa3297613b78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 174/176] fix: fan.plot draws a wrong region or stops for one
 row, one quantile or missing actual values

---
 Rpackage/R/g.plots.R | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index b385680..0817a0c 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -206,8 +206,9 @@ fan.plot <- function (data,
     startInd <- which(sds!=0)
     startInd <- ifelse(length(startInd) == 0, length(sds), startInd[[1]])
     medians <- means
-    quants <- t(apply(data, 1, function(x) qnorm(quantiles,
-                                                 x[1], sqrt(x[2]))))
+    quants <- matrix(apply(data, 1, function(x) qnorm(quantiles,
+                                                      x[1], sqrt(x[2]))),
+                     nrow = nrow(data), byrow = TRUE)
   }
   else if (dist == "log-normal") {
     if (ncol(data) != 2) {
@@ -218,14 +219,15 @@ fan.plot <- function (data,
     startInd <- which(sdlogs!=0)
     startInd <- ifelse(length(startInd) == 0, length(sdlogs), startInd[[1]])
     medians <- exp(meanlogs + sdlogs^2/2)
-    quants <- t(apply(data, 1, function(x) qlnorm(quantiles,
-                                                  x[1], x[2])))
+    quants <- matrix(apply(data, 1, function(x) qlnorm(quantiles,
+                                                       x[1], x[2])),
+                     nrow = nrow(data), byrow = TRUE)
   }
   else {
     stop(paste("Distribution", dist, "is not supported."))
   }
 
-  quants <- cbind(quants[, quantiles <= 0.5], medians, quants[, quantiles > 0.5])
+  quants <- cbind(quants[, quantiles <= 0.5, drop = FALSE], medians, quants[, quantiles > 0.5, drop = FALSE])
 
   if (!is.null(lambda) && !is.na(lambda)){
 
@@ -239,8 +241,8 @@ fan.plot <- function (data,
     quants <- apply(quants, c(1,2), inverse_boxcox, lambda = lambda)
   }
 
-  ymin <- min(quants)
-  ymax <- max(quants)
+  ymin <- min(quants, na.rm = TRUE)
+  ymax <- max(quants, na.rm = TRUE)
   if (!is.null(ylimSuggest)){
     stopifnot(length(ylimSuggest) == 2)
     ymin <- ifelse(is.na(ylimSuggest[[1]]), ymin, min(ymin, ylimSuggest[[1]]))
-- 
2.43.0


From dcf4e99ff39d5e17e93fce6e6839f9f8199d25c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 175/176] fix: fan.plot draws the mean instead of the median of
 a log-normal distribution

---
 Rpackage/R/g.plots.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 0817a0c..5d2f96c 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -218,7 +218,7 @@ fan.plot <- function (data,
     sdlogs <- data[, 2]
     startInd <- which(sdlogs!=0)
     startInd <- ifelse(length(startInd) == 0, length(sdlogs), startInd[[1]])
-    medians <- exp(meanlogs + sdlogs^2/2)
+    medians <- exp(meanlogs)
     quants <- matrix(apply(data, 1, function(x) qlnorm(quantiles,
                                                        x[1], x[2])),
                      nrow = nrow(data), byrow = TRUE)
-- 
2.43.0


From 3ca5f658c7ab8bfb93471fa508d01f03f075845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 176/176] fix: plot of a VARMA prediction stops without
 simulation details or if some horizons are not simulated

---
 Rpackage/R/g.plots.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 5d2f96c..91f655b 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -381,7 +381,7 @@ plot.ldt.varma.prediction <- function(x,
     xAxisArgs$at <- xAxisArgs$at[1:length(freqs)]
   do.call(axis, c(list(1, labels = freqs[xAxisArgs$at]), xAxisArgs))
 
-  if (is.null(simMetric) == FALSE){
+  if (is.null(simMetric) == FALSE && !is.null(x$simulation)){
 
     simLineArgs <- modifyList(list(lty = 2, col = "gray", lwd = 0.5), simLineArgs)
     simPointsArgs <- modifyList(list(pch = 19, col = "red", cex = 0.5), simPointsArgs)
@@ -393,7 +393,7 @@ plot.ldt.varma.prediction <- function(x,
       det <- details[details[,"sampleEnd"]==p,, drop = FALSE]
       det <- det[order(det[,"horizon"]),, drop = FALSE]
       #if (x$actualCount - p < 1)  shouldn't the plot handle it?
-      xs <- c((x$actualCount - p): (x$actualCount - p + max(det[,"horizon"])))
+      xs <- x$actualCount - p + c(0, det[,"horizon"])
       ys <- c(det[1,"last"], det[,"prediction"]) # last value & forecasts
       do.call(lines, c(list(x = xs, y = ys), simLineArgs))
       do.call(points, c(list(x = xs, y = ys), simPointsArgs))
-- 
2.43.0

