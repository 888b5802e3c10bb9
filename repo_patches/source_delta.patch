From 294bf4c9863218c5ae5de2615f39c9d762f488d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:27 +0000
Subject: [PATCH 01/54] fix: read the last entry of an index file

The look-ups of page indices and flags treated an index file that ends
exactly at the wanted entry as too short. The series in the last slot
could not be read once its pages had left memory.
---
 src/core/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 38beaea..0ba55ec 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -472,7 +472,7 @@ IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& head
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -495,7 +495,7 @@ IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& hea
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -518,7 +518,7 @@ IndexFile::get_out_of_order(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
@@ -568,7 +568,7 @@ IndexFile::get_out_of_order2(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
-- 
2.43.0


From 2e5e260cd999a49c27b937a40cde4f29690adf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:12 +0000
Subject: [PATCH 02/54] fix: compute rates from the unit the timestamps are in

By the time rates are calculated the timestamps have been converted to
the resolution asked for by the query. Dividing by the storage
resolution made rates 1000 times too large or too small whenever the
two differed.
---
 include/rate.h     | 2 +-
 src/agg/rate.cpp   | 4 ++--
 src/core/query.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/rate.h b/include/rate.h
index 66b73d5..58e04f9 100644
--- a/include/rate.h
+++ b/include/rate.h
@@ -31,7 +31,7 @@ class RateCalculator : public Recyclable
 {
 public:
     void init(bool counter, bool drop_resets, uint64_t counter_max = UINT64_MAX, uint64_t reset_value = 0);
-    void calculate(DataPointVector& dps);   // calc in-place
+    void calculate(DataPointVector& dps, bool ms);     // ms: are timestamps in milliseconds?   // calc in-place
 
 private:
     bool m_counter;
diff --git a/src/agg/rate.cpp b/src/agg/rate.cpp
index 358dd99..020df42 100644
--- a/src/agg/rate.cpp
+++ b/src/agg/rate.cpp
@@ -36,7 +36,7 @@ RateCalculator::init(bool counter, bool drop_resets, uint64_t counter_max, uint6
 }
 
 void
-RateCalculator::calculate(DataPointVector& dps)
+RateCalculator::calculate(DataPointVector& dps, bool ms)
 {
     if (dps.empty()) return;
 
@@ -55,7 +55,7 @@ RateCalculator::calculate(DataPointVector& dps)
         double ts_delta_secs = (double)(t1 - t0);
         double val_delta = v1 - v0;
 
-        if (g_tstamp_resolution_ms) ts_delta_secs /= 1000.0;
+        if (ms) ts_delta_secs /= 1000.0;
 
         if (m_counter && (val_delta < 0))
         {
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 2ff9177..e30389b 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -477,7 +477,7 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
             auto result = *it;
 
             if (result->empty()) continue;
-            m_rate_calculator->calculate(result->get_dps());
+            m_rate_calculator->calculate(result->get_dps(), m_ms);
 
             if (result->empty())
             {
-- 
2.43.0


From a8542eb58c386113a6bbdf5754060a68b3f44eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:12 +0000
Subject: [PATCH 03/54] fix: do not spin on an empty result when calculating
 rates

---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index e30389b..9c00457 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -476,7 +476,7 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
         {
             auto result = *it;
 
-            if (result->empty()) continue;
+            if (result->empty()) { it++; continue; }
             m_rate_calculator->calculate(result->get_dps(), m_ms);
 
             if (result->empty())
-- 
2.43.0


From 956262306967d680ea692bf506608d657c61d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:33 +0000
Subject: [PATCH 04/54] fix: share the yearly rollup file between rollup and
 queries

Rollup looked the file up by month while queries look it up by year.
Once a query had opened the file, the days added by the rollup of
another month stayed invisible to it.
---
 src/agg/rollup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f195988..07bfe2d 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -629,7 +629,8 @@ RollupManager::get_or_create_level2_data_file_by_bucket(int bucket, Timestamp ts
     ASSERT(bucket >= 0);
     ASSERT(is_sec(tstamp));
 
-    uint64_t key = tstamp * MAX_ROLLUP_BUCKET_COUNT + bucket;
+    // there is one level2 file per year; use the same key as the queries do
+    uint64_t key = begin_year(tstamp) * MAX_ROLLUP_BUCKET_COUNT + bucket;
     std::lock_guard<std::mutex> guard(m_lock2);
     auto search = m_data_files2.find(key);
     RollupDataFile *data_file = nullptr;
-- 
2.43.0


From 59d3b025f8972e7db473cdc6829e209461f81140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:33 +0000
Subject: [PATCH 05/54] fix: answer an empty page of a lookup with valid JSON

---
 include/rate.h     | 2 +-
 src/core/query.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rate.h b/include/rate.h
index 58e04f9..851404e 100644
--- a/include/rate.h
+++ b/include/rate.h
@@ -31,7 +31,7 @@ class RateCalculator : public Recyclable
 {
 public:
     void init(bool counter, bool drop_resets, uint64_t counter_max = UINT64_MAX, uint64_t reset_value = 0);
-    void calculate(DataPointVector& dps, bool ms);     // ms: are timestamps in milliseconds?   // calc in-place
+    void calculate(DataPointVector& dps, bool ms);  // calc in-place; ms: timestamps are in milliseconds
 
 private:
     bool m_counter;
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 9c00457..cda0ac0 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1591,7 +1591,7 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
         }
 
         // remove last comma
-        if (! tsv.empty()) n--;
+        if (resp_buff[n-1] == ',') n--;
         n += snprintf(resp_buff+n, size-n, "]}");
         ASSERT((n+1) < size);
 
-- 
2.43.0


From a939f427799ba6e1b055b06190e62352a934b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:33 +0000
Subject: [PATCH 06/54] fix: accept requests that have no parameters

A GET of /api/query, /api/suggest or /api/search/lookup without a query
string crashed the server.
---
 src/core/http.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 7b0a52c..c68e393 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1163,6 +1163,8 @@ HttpRequest::init()
 void
 HttpRequest::parse_params(JsonMap& pairs)
 {
+    if (params == nullptr) return;
+
     std::vector<char*> tokens;
     tokenize(params, '&', tokens);
 
-- 
2.43.0


From 84b5796fbfb9d962d21fab54b8a7ed1d274b2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:11 +0000
Subject: [PATCH 07/54] fix: reject a write request that has no body

A POST of /api/put or /api/write with an empty body crashed the server.
---
 src/core/tsdb.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6b0ebe4..affb77c 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2324,7 +2324,12 @@ Tsdb::insts(const TimeRange& range, std::vector<Tsdb*>& tsdbs)
 bool
 Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)     // empty body
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2340,7 +2345,12 @@ Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)     // empty body
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2386,7 +2396,12 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)     // empty body
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_plain()...");
 
     char *curr = request.content;
@@ -2487,7 +2502,12 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)     // empty body
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_influx()...");
 
     char *curr = request.content;
-- 
2.43.0


From 1a75d783db486c447dbaf439154e55651ae28bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:12 +0000
Subject: [PATCH 08/54] fix: let a rewritten timestamp win over older
 out-of-order data

Out-of-order pages take precedence when a timestamp occurs twice, but a
point could still be stored as in-order although the day already held
newer or out-of-order points of its series: after a restart only
in-order pages were looked at, and nothing was looked at when the series
moved on to a day written earlier. The old value was then returned, or
both were.
---
 include/ts.h      |  1 +
 include/tsdb.h    |  2 +-
 src/core/ts.cpp   | 42 +++++++++++++++++++++++++++++++++---------
 src/core/tsdb.cpp |  7 +++++--
 4 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/include/ts.h b/include/ts.h
index 337a8f1..4b05f85 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -65,6 +65,7 @@ public:
 
     bool add_data_point(MetricId mid, DataPoint& dp);
     bool add_ooo_data_point(MetricId mid, DataPoint& dp);
+    bool is_after_last(Tsdb *tsdb, MetricId mid, Timestamp tstamp);
 
     void append(MetricId mid, FILE *file);
 
diff --git a/include/tsdb.h b/include/tsdb.h
index 8cf6ace..cca0ef2 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -264,7 +264,7 @@ public:
     bool has_daily_rollup();
     bool can_use_rollup(bool level2);
     bool can_use_rollup(TimeSeriesId tid);
-    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid);
+    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo = false);
     bool get_out_of_order(TimeSeriesId tid);
     void set_out_of_order(TimeSeriesId tid, bool ooo);
     bool get_out_of_order2(TimeSeriesId tid);
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index b5004b2..458a6f9 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -293,13 +293,14 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     {
         Tsdb *tsdb = Tsdb::inst(tstamp, true);
         ASSERT(tsdb != nullptr);
-        Timestamp last_tstamp = tsdb->get_last_tstamp(mid, m_id);
-        is_ooo = is_ooo || (tstamp <= last_tstamp);
+        is_ooo = is_ooo || ! is_after_last(tsdb, mid, tstamp);
         if (! is_ooo)
         {
             update_rollup = true;
             m_buff = new PageInMemory(mid, m_id, tsdb, false);
         }
+        else
+            tsdb->dec_ref_count();
     }
     else if ((in_range = m_buff->in_range_strictly(tstamp)) != 0)
     {
@@ -307,15 +308,24 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
         if (! is_ooo)
         {
-            m_buff->flush(mid, m_id);
+            Tsdb *tsdb = Tsdb::inst(tstamp, true);
 
-            if (m_ooo_buff != nullptr)
-                m_ooo_buff->update_indices(m_buff);
+            // there could be newer data in that Tsdb already
+            is_ooo = ! is_after_last(tsdb, mid, tstamp);
 
-            // reset the m_buff
-            Tsdb *tsdb = Tsdb::inst(tstamp, true);
-            m_buff->init(mid, m_id, tsdb, false);
-            update_rollup = true;
+            if (! is_ooo)
+            {
+                m_buff->flush(mid, m_id);
+
+                if (m_ooo_buff != nullptr)
+                    m_ooo_buff->update_indices(m_buff);
+
+                // reset the m_buff
+                m_buff->init(mid, m_id, tsdb, false);
+                update_rollup = true;
+            }
+            else
+                tsdb->dec_ref_count();
         }
     }
     else
@@ -361,6 +371,20 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     return ok;
 }
 
+// Out-of-order pages take precedence over the others when they have data
+// points of the same timestamp. So anything that is not newer than what is in
+// the 'tsdb' already, out-of-order or not, has to go to the out-of-order page.
+// Lock is acquired in add_data_point() already!
+bool
+TimeSeries::is_after_last(Tsdb *tsdb, MetricId mid, Timestamp tstamp)
+{
+    if (tstamp <= tsdb->get_last_tstamp(mid, m_id, true))
+        return false;
+
+    return (m_ooo_buff == nullptr) || m_ooo_buff->is_empty() || (m_ooo_buff->get_tsdb() != tsdb) ||
+        (m_ooo_buff->get_time_range().get_to() <= tstamp);
+}
+
 // Lock is acquired in add_data_point() already!
 bool
 TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index affb77c..125b4f9 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1847,9 +1847,10 @@ Tsdb::shutdown()
 
 // get timestamp of last data-point in this Tsdb, for the given TimeSeries
 Timestamp
-Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
+Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo)
 {
     Timestamp tstamp = 0;
+    Timestamp last_ooo = 0;
     FileIndex fidx, file_idx;
     HeaderIndex hidx, header_idx;
     struct page_info_on_disk *page_header = nullptr;
@@ -1889,6 +1890,8 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
             page_header = header;
             tsdb_header = header_file->get_tsdb_header();
         }
+        else if (include_ooo && (header->m_tstamp_to > 0))
+            last_ooo = std::max(last_ooo, m_time_range.get_from() + header->m_tstamp_to - 1);
 
         ASSERT((fidx < header->m_next_file) || (fidx == header->m_next_file && hidx < header->m_next_header));
 
@@ -1932,7 +1935,7 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
         MemoryManager::free_recyclable(container);
     }
 
-    return tstamp;
+    return std::max(tstamp, last_ooo);
 }
 
 bool
-- 
2.43.0


From e6aac8a1071e0f0035b6890f402abc9da011ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:08 +0000
Subject: [PATCH 09/54] fix: find points that lie exactly at the end of the
 queried range

A query range includes its end, but days and in-memory pages starting
exactly there were skipped.
---
 include/range.h   | 3 ++-
 src/core/ts.cpp   | 4 ++--
 src/core/tsdb.cpp | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/range.h b/include/range.h
index cbbc72d..dade963 100644
--- a/include/range.h
+++ b/include/range.h
@@ -84,9 +84,10 @@ public:
         return (tstamp < m_from) ? -1 : ((m_to <= tstamp) ? 1 : 0);
     }
 
+    // 'this' is [from, to) of a tsdb or a page; 'range' is [from, to] of a query
     inline bool has_intersection(const TimeRange& range) const
     {
-        return (m_from < range.m_to) && (range.m_from < m_to);
+        return (m_from <= range.m_to) && (range.m_from < m_to);
     }
 
     inline bool contains(const TimeRange& range) const
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 458a6f9..55f983b 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -455,7 +455,7 @@ TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataP
     {
         TimeRange r = m_buff->get_time_range();
 
-        if (range.has_intersection(r))
+        if (r.has_intersection(range))
         {
             PageIndex page_idx = 0;
 
@@ -478,7 +478,7 @@ TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataP
     {
         TimeRange r = m_ooo_buff->get_time_range();
 
-        if (range.has_intersection(r))
+        if (r.has_intersection(range))
         {
             PageIndex page_idx = 0;
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 125b4f9..67d3e2a 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1641,7 +1641,7 @@ Tsdb::query_for_data(Metric *metric, QueryTask *task)
     if (ooo) task->set_ooo(true);
     task->set_tstamp_from(page_header->m_tstamp_to);
 
-    if (query_range.has_intersection(range))
+    if (range.has_intersection(query_range))
     {
         DataFile *data_file = metric->get_data_file_no_lock(file_idx);
         PThread_Lock lock(data_file->get_lock());
@@ -2306,7 +2306,7 @@ Tsdb::insts(const TimeRange& range, std::vector<Tsdb*>& tsdbs)
     // adjust upper bound
     tsdb = m_tsdbs[upper];
 
-    while (tsdb->m_time_range.get_to() < range.get_to())
+    while (tsdb->m_time_range.get_to() <= range.get_to())
     {
         if (upper == (size-1)) break;
         upper++;
@@ -3741,7 +3741,7 @@ Tsdb::rollup(TaskData& data)
         if ((end <= begin_month(now_sec)) && (threshold < (now_sec - end)))
         {
             // get all the Tsdbs in this month
-            TimeRange range(validate_resolution(begin), validate_resolution(end));
+            TimeRange range(validate_resolution(begin), validate_resolution(end) - 1);
             Tsdb::insts(range, tsdbs);
 
             // make sure none of the Tsdbs are in use
-- 
2.43.0


From e2ed03121eb29e078946c0d0a7e85ebbcdcadf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:34 +0000
Subject: [PATCH 10/54] fix: take list and wildcard conditions literally

Characters of tag values that are special in regular expressions, such
as the dot, matched other values in literal_or, wildcard and a|b
conditions.
---
 include/tag.h     |  2 ++
 src/utils/tag.cpp | 57 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/include/tag.h b/include/tag.h
index a6e7152..4b0a5f4 100644
--- a/include/tag.h
+++ b/include/tag.h
@@ -225,6 +225,8 @@ private:
         return (TagMatcher*&)Recyclable::next();
     }
 
+    static bool is_special(char ch);
+    static std::string escape_literals(const char *src);
     // return length of 'dst' string
     static int replace_stars(char *dst, const char *src);
     static std::size_t replace_literal_or(char *dst, const char *src);
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 1881861..1974aff 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -718,11 +718,11 @@ TagMatcher::init(Tag *tags)
     // handle 'literal_or(...)'
     if (starts_with(value, "literal_or(") && (value[last] == ')'))
     {
-        m_regex = new std::regex(value+10, std::regex_constants::ECMAScript);
+        m_regex = new std::regex(escape_literals(value+10), std::regex_constants::ECMAScript);
     }
     else if (starts_with(value, "iliteral_or(") && (value[last] == ')'))
     {
-        m_regex = new std::regex(value+11, std::regex_constants::ECMAScript | std::regex_constants::icase);
+        m_regex = new std::regex(escape_literals(value+11), std::regex_constants::ECMAScript | std::regex_constants::icase);
     }
     else if (starts_with(value, "not_literal_or(") && (value[last] == ')'))
     {
@@ -773,10 +773,9 @@ TagMatcher::init(Tag *tags)
     else if (std::strchr(value, '|') != nullptr)
     {
         // OpenTSDB 1.x - 2.1 filter
-        buff[0] = '(';
-        std::strncpy(buff, value, sizeof(buff)-2);
-        buff[last+2] = ')'; buff[last+3] = 0;
-        m_regex = new std::regex(buff, std::regex_constants::ECMAScript);
+        std::string literals("(");
+        literals.append(value).append(")");
+        m_regex = new std::regex(escape_literals(literals.c_str()), std::regex_constants::ECMAScript);
     }
     else
     {
@@ -802,16 +801,16 @@ TagMatcher::replace_stars(char *dst, const char *src)
 
     for (i = 0, j = 0; src[j] != 0; i++, j++)
     {
-        if (src[j] == '.')      // escape '.'
-        {
-            dst[i++] = '\\';
-            dst[i] = '.';
-        }
-        else if (src[j] == '*') // replace '*' with '.*'
+        if (src[j] == '*')      // replace '*' with '.*'
         {
             dst[i++] = '.';
             dst[i] = '*';
         }
+        else if (is_special(src[j]) && ((src[j] != ')') || (src[j+1] != 0)))
+        {
+            dst[i++] = '\\';
+            dst[i] = src[j];
+        }
         else
             dst[i] = src[j];
     }
@@ -820,6 +819,32 @@ TagMatcher::replace_stars(char *dst, const char *src)
     return i;
 }
 
+// does 'ch' have a special meaning in regular expressions?
+bool
+TagMatcher::is_special(char ch)
+{
+    return (ch != 0) && (std::strchr("\\^$.*+?()[]{}|", ch) != nullptr);
+}
+
+/* @param src example: '(web.1|web.2)'
+ * @return example: '(web\.1|web\.2)'
+ */
+std::string
+TagMatcher::escape_literals(const char *src)
+{
+    std::string dst;
+    size_t last = std::strlen(src) - 1;
+
+    for (size_t i = 0; i <= last; i++)
+    {
+        if ((i != 0) && (i != last) && (src[i] != '|') && is_special(src[i]))
+            dst.push_back('\\');
+        dst.push_back(src[i]);
+    }
+
+    return dst;
+}
+
 /* @param src example: '(web01|web02)'
  * @param dst example: '(?!web01$|web02$)(.*)'
  */
@@ -840,7 +865,13 @@ TagMatcher::replace_literal_or(char *dst, const char *src)
 
     for (char *token: tokens)
     {
-        strcat(dst, token);
+        for (size_t i = std::strlen(dst); *token != 0; token++)
+        {
+            if (is_special(*token)) dst[i++] = '\\';
+            dst[i++] = *token;
+            dst[i] = 0;
+        }
+
         strcat(dst, "$|");
     }
 
-- 
2.43.0


From cc543a08dce8f24821d5c8704db6dfa06bfa7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:36 +0000
Subject: [PATCH 11/54] fix: honour a field condition when a series is looked
 up by its exact tags

---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 67d3e2a..3c5f39a 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -706,7 +706,7 @@ Mapping::query_for_ts(Tag *tags, std::unordered_set<TimeSeries*>& tsv, const cha
                     for (auto t : all) tsv.insert(t);
                 }
             }
-            else
+            else if (TagOwner::find_by_key(tags, TT_FIELD_TAG_NAME) == nullptr)
                 ts = static_cast<TimeSeries*>(bt);
 
             if (ts != nullptr)
-- 
2.43.0


From a7fbe3f3b541b19b4a364f978664feeb78045376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:42 +0000
Subject: [PATCH 12/54] fix: keep small steps and large values in codecs 3 and
 4

A step of one unit in the last kept decimal was dropped when rounding
made it slightly smaller than the unit.  A change that does not fit
64 bits now starts a new page instead of storing garbage.  The power
of ten is computed exactly so that flat series stay flat.
---
 include/compress.h    |  1 +
 src/core/compress.cpp | 27 ++++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/compress.h b/include/compress.h
index 48196b3..b5387e1 100644
--- a/include/compress.h
+++ b/include/compress.h
@@ -125,6 +125,7 @@ public:
     static double uncompress_f4(BitSetCursor *cursor, double precision, BitSet& bitset);
     static int64_t uncompress_i4(BitSetCursor *cursor, BitSet& bitset);
     static uint32_t uncompress_i4a(BitSetCursor *cursor, BitSet& bitset);
+    static double power_of_10(int p);
 
 protected:
     Compressor();
diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index c199552..b6cc9b9 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -54,6 +54,9 @@ static uint64_t TRAILING_ZEROS[64] =
     0x00000000000000F0, 0x00000000000000E0, 0x00000000000000C0, 0x0000000000000080
 };
 
+// largest magnitude (exclusive) that compress4() can turn into an int64_t
+#define TT_MAX_COMPRESS4    9.2e18
+
 short Compressor_v4::m_repetition;
 unsigned short Compressor_v4::m_max_repetition;
 double Compressor_v4::m_precision;
@@ -115,6 +118,16 @@ Compressor::create(int version)
     return compressor;
 }
 
+/* std::pow(10, p) is not always exact under -ffast-math
+ */
+double
+Compressor::power_of_10(int p)
+{
+    double result = 1.0;
+    while (p-- > 0) result *= 10.0;
+    return result;
+}
+
 void
 Compressor::compress4(double v, double precision, BitSet& bitset)
 {
@@ -122,7 +135,7 @@ Compressor::compress4(double v, double precision, BitSet& bitset)
 
     f = std::modf(v, &i);
 
-    if (std::abs(f) < (1.0 / precision))
+    if ((std::abs(f) < (0.5 / precision)) && (std::abs(i) < TT_MAX_COMPRESS4))
     {
         uint8_t one_zero = 0x00;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
@@ -130,6 +143,10 @@ Compressor::compress4(double v, double precision, BitSet& bitset)
     }
     else
     {
+        // can't be represented; caller should start over with a new page
+        if (std::abs(v * precision) >= TT_MAX_COMPRESS4)
+            throw std::out_of_range("value too big");
+
         uint8_t one_zero = 0x80;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
         compress4((int64_t)std::llround(v * precision), bitset);
@@ -375,7 +392,7 @@ Compressor_v4::initialize()
             CFG_TSDB_COMPRESSOR_PRECISION, p, CFG_TSDB_COMPRESSOR_PRECISION_DEF);
         p = CFG_TSDB_COMPRESSOR_PRECISION_DEF;
     }
-    m_precision = std::pow(10, p);
+    m_precision = Compressor::power_of_10(p);
 
     // 1 <= m_reppetition <= 7
     m_repetition = 7;
@@ -535,7 +552,7 @@ Compressor_v4::compress(Timestamp timestamp, double value)
             compress4(delta_of_delta, m_bitset);
             compress4(delta_of_delta_v, m_precision, m_bitset);
         }
-        else if (((std::abs(delta_v - m_prev_value_delta) < (1.0 / m_precision)) && (delta == m_prev_tstamp_delta) && (m_repeat < m_max_repetition)) && !m_padded)
+        else if (((std::abs(delta_v - m_prev_value_delta) < (0.5 / m_precision)) && (delta == m_prev_tstamp_delta) && (m_repeat < m_max_repetition)) && !m_padded)
         {
             m_bitset.save_check_point();
             if ((m_repeat == 0) && (m_bitset.avail_capacity_in_bytes() < 1))
@@ -725,7 +742,7 @@ Compressor_v3::initialize()
             CFG_TSDB_COMPRESSOR_PRECISION, p, CFG_TSDB_COMPRESSOR_PRECISION_DEF);
         p = CFG_TSDB_COMPRESSOR_PRECISION_DEF;
     }
-    m_precision = std::pow(10, p);
+    m_precision = Compressor::power_of_10(p);
 }
 
 void
@@ -1740,7 +1757,7 @@ RollupCompressor_v1::init()
             CFG_TSDB_ROLLUP_COMPRESSOR_PRECISION, p, CFG_TSDB_ROLLUP_COMPRESSOR_PRECISION_DEF);
         p = CFG_TSDB_ROLLUP_COMPRESSOR_PRECISION_DEF;
     }
-    m_precision = std::pow(10, p);
+    m_precision = Compressor::power_of_10(p);
 }
 
 /* flag bits:
-- 
2.43.0


From e0cf697521c286352c314d795ee45b5ab02f98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:23 +0000
Subject: [PATCH 13/54] fix: keep downsampling buckets inside the range and on
 their grid

The '0all' bucket took points past the end of the range when the end
was a multiple of its length.  Filling used the interval in output
units, which is zero below one second and made the query never end.
A range starting at zero no longer shifts the grid.
---
 include/down.h   |  2 +-
 src/agg/down.cpp | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/down.h b/include/down.h
index c67a5ba..ecb2fde 100644
--- a/include/down.h
+++ b/include/down.h
@@ -76,7 +76,7 @@ public:
     inline const TimeRange get_expanded_range() const
     {
         TimeRange range(m_time_range);
-        if (range.get_to() % m_interval == 0)
+        if (!m_all && (range.get_to() % m_interval == 0))
             range.set_to(range.get_to() + m_interval - 1);
         return range;
     }
diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 0a88f4f..58653e8 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -235,8 +235,10 @@ Downsampler::create(const char *downsample, const TimeRange& range, bool ms)
 Timestamp
 Downsampler::step_up(Timestamp tstamp) const
 {
+    if (m_all) return m_start;
+    if (tstamp == 0) return 0;
     tstamp--;
-    return m_all ? m_start : (tstamp - (tstamp % m_interval) + m_interval);
+    return tstamp - (tstamp % m_interval) + m_interval;
 }
 
 Timestamp
@@ -276,34 +278,36 @@ Downsampler::fill_if_needed(DataPointVector& dps)
     if (m_fill != DownsampleFillPolicy::DFP_NONE)
     {
         DataPointVector dpv;
-        Timestamp ts = validate_resolution(m_time_range.get_from(), m_ms);
-        Timestamp interval =
-            (m_ms == g_tstamp_resolution_ms) ? m_interval : (m_ms ? (m_interval * 1000) : m_interval / 1000);
+        Timestamp ts = m_time_range.get_from();
+        // convert from the unit of m_time_range to the unit of dps
+        auto output = [this](Timestamp t) {
+            return (m_ms == g_tstamp_resolution_ms) ? t : (m_ms ? (t * 1000) : (t / 1000));
+        };
 
         // scan dps, filling any gaps
         for (auto dp: dps)
         {
             // fill
-            while (ts < dp.first)
+            while (output(ts) < dp.first)
             {
                 dpv.emplace_back(validate_resolution(ts, m_ms), m_fill_value);
-                ts += interval;
+                ts += m_interval;
             }
 
-            if (dp.first == ts)
+            if (dp.first == output(ts))
             {
-                ts += interval;
+                ts += m_interval;
                 dpv.emplace_back(dp.first, dp.second);
             }
         }
 
         // fill
-        Timestamp to = validate_resolution(m_time_range.get_to(), m_ms);
+        Timestamp to = m_time_range.get_to();
 
         while (ts <= to)
         {
             dpv.emplace_back(validate_resolution(ts, m_ms), m_fill_value);
-            ts += interval;
+            ts += m_interval;
         }
 
         dps.swap(dpv);
-- 
2.43.0


From 0a797151ea2c92fbcdc1d723dbe76acb8ca2cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:38 +0000
Subject: [PATCH 14/54] fix: do not let rounding accumulate in codecs 3 and 4

Each point is now compressed relative to what decompression will see
for the previous one, so a value is never off by more than half a unit
of the last kept decimal.  A value that cannot be restored from its
distance to a much bigger one starts a new page.
---
 include/compress.h    |  3 ++-
 src/core/compress.cpp | 52 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/include/compress.h b/include/compress.h
index b5387e1..84b25e7 100644
--- a/include/compress.h
+++ b/include/compress.h
@@ -119,13 +119,14 @@ public:
     Timestamp get_start_tstamp_const() const;
 
     // used by compression version 3 & 4
-    static void compress4(double v, double precision, BitSet& bitset);
+    static double compress4(double v, double precision, BitSet& bitset);
     static void compress4(int64_t n, BitSet& bitset);
     static void compress4a(uint32_t n, BitSet& bitset);
     static double uncompress_f4(BitSetCursor *cursor, double precision, BitSet& bitset);
     static int64_t uncompress_i4(BitSetCursor *cursor, BitSet& bitset);
     static uint32_t uncompress_i4a(BitSetCursor *cursor, BitSet& bitset);
     static double power_of_10(int p);
+    static bool is_lossy(double restored, double value, double precision);
 
 protected:
     Compressor();
diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index b6cc9b9..0d64eea 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -128,7 +128,9 @@ Compressor::power_of_10(int p)
     return result;
 }
 
-void
+/* @return the value uncompress_f4() will give back
+ */
+double
 Compressor::compress4(double v, double precision, BitSet& bitset)
 {
     double i, f;
@@ -140,6 +142,7 @@ Compressor::compress4(double v, double precision, BitSet& bitset)
         uint8_t one_zero = 0x00;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
         compress4((int64_t)v, bitset);
+        return (double)(int64_t)v;
     }
     else
     {
@@ -149,10 +152,23 @@ Compressor::compress4(double v, double precision, BitSet& bitset)
 
         uint8_t one_zero = 0x80;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
-        compress4((int64_t)std::llround(v * precision), bitset);
+        int64_t n = std::llround(v * precision);
+        compress4(n, bitset);
+        return ((double)n) / precision;
     }
 }
 
+/* Used by compression version 3 & 4, to find out if a value can be restored
+ * from its distance to the previous one; it can't be right after a much
+ * bigger one.
+ */
+bool
+Compressor::is_lossy(double restored, double value, double precision)
+{
+    double err = std::abs(restored - value);
+    return (err > (1.0 / precision)) && (err > (1e-6 * std::abs(value)));
+}
+
 void
 Compressor::compress4a(uint32_t n, BitSet& bitset)
 {
@@ -539,32 +555,34 @@ Compressor_v4::compress(Timestamp timestamp, double value)
         ASSERT((delta_of_delta >= 0) || (std::abs(delta_of_delta) < m_prev_tstamp_delta));
         double delta_v = value - m_prev_value;
         double delta_of_delta_v = delta_v - m_prev_value_delta;
+        double restored_dod_v = 0.0;    // what uncompress() will see
+        bool repeat = false;
 
         if (UNLIKELY(m_dp_count == 1))
         {
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_v, m_precision, m_bitset);
+            restored_dod_v = compress4(delta_v, m_precision, m_bitset);
         }
         else if (UNLIKELY(m_dp_count == 2))
         {
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_of_delta_v, m_precision, m_bitset);
+            restored_dod_v = compress4(delta_of_delta_v, m_precision, m_bitset);
         }
         else if (((std::abs(delta_v - m_prev_value_delta) < (0.5 / m_precision)) && (delta == m_prev_tstamp_delta) && (m_repeat < m_max_repetition)) && !m_padded)
         {
             m_bitset.save_check_point();
             if ((m_repeat == 0) && (m_bitset.avail_capacity_in_bytes() < 1))
                 throw std::out_of_range("bitset is full");
-            m_repeat++;
+            repeat = true;
         }
         else
         {
             pad();
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_of_delta_v, m_precision, m_bitset);
+            restored_dod_v = compress4(delta_of_delta_v, m_precision, m_bitset);
 
             if (m_bitset.avail_capacity_in_bits() < 1)
                 throw std::out_of_range("bitset is full");
@@ -572,12 +590,22 @@ Compressor_v4::compress(Timestamp timestamp, double value)
 
         ASSERT((m_prev_tstamp_delta + delta_of_delta) < MAX_MS_SINCE_EPOCH);
 
+        // go on from the restored values, so that rounding does not accumulate
+        volatile double restored_delta_v = m_prev_value_delta + restored_dod_v;
+        volatile double restored_v = m_prev_value + restored_delta_v;
+
+        if (is_lossy(restored_v, value, m_precision))
+            throw std::out_of_range("value not restorable");
+
+        if (repeat)
+            m_repeat++;
+
         m_prev_tstamp = timestamp;
         m_prev_tstamp_delta = delta;
 
         m_dp_count++;
-        m_prev_value = value;
-        m_prev_value_delta = delta_v;
+        m_prev_value = restored_v;
+        m_prev_value_delta = restored_delta_v;
         m_padded = false;
     }
     catch (const std::out_of_range& ex)
@@ -847,10 +875,14 @@ Compressor_v3::compress(Timestamp timestamp, double value)
 
         // Value next
         double v = value - m_prev_value;
-        compress4(v, m_precision, m_bitset);
+        volatile double restored_v = m_prev_value + compress4(v, m_precision, m_bitset);
 
+        if (is_lossy(restored_v, value, m_precision))
+            throw std::out_of_range("value not restorable");
+
+        // go on from the restored value, so that rounding does not accumulate
         m_dp_count++;
-        m_prev_value = value;
+        m_prev_value = restored_v;
     }
     catch (const std::out_of_range& ex)
     {
-- 
2.43.0


From 627a3d91bab66c1577a290bc013bc474ab056b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:32 +0000
Subject: [PATCH 15/54] fix: remember the configured number of rollup buckets
 in the data directory

The data directory recorded the default number, so a restart changed the
number of buckets and rolled up data were no longer found.
---
 src/utils/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 4ed6f38..c7b21eb 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -92,7 +92,8 @@ Config::init()
     }
     else
     {
-        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS, std::to_string(CFG_TSDB_ROLLUP_BUCKETS_DEF));
+        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS,
+            std::to_string(m_instance->get_int(CFG_TSDB_ROLLUP_BUCKETS, CFG_TSDB_ROLLUP_BUCKETS_DEF)));
     }
 
     cfg.persist();
-- 
2.43.0


From 039fa37f08bf133bb6954af18336e3badc6ea4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:32 +0000
Subject: [PATCH 16/54] fix: combine daily, hourly and raw sources of a rollup
 query correctly

For each series and day exactly one source is used, and everything goes
through one downsampler in chronological order. Days without usable
rollup data used to be counted twice, lost, or aggregated twice, and 0all
queries used hour buckets reaching beyond the range.
---
 include/down.h     |   5 +
 include/query.h    |  13 +--
 src/core/query.cpp | 246 +++++++++++++++++++--------------------------
 3 files changed, 110 insertions(+), 154 deletions(-)

diff --git a/include/down.h b/include/down.h
index ecb2fde..efcdf83 100644
--- a/include/down.h
+++ b/include/down.h
@@ -66,6 +66,11 @@ public:
         return m_interval;
     }
 
+    inline bool is_all() const
+    {
+        return m_all;
+    }
+
     inline void set_interval(Timestamp interval)
     {
         m_interval = interval;
diff --git a/include/query.h b/include/query.h
index b76eda0..f8e9fae 100644
--- a/include/query.h
+++ b/include/query.h
@@ -192,8 +192,6 @@ public:
     void convert_to_ms();
     void convert_to_sec();
     void add_data_point(struct rollup_entry_ext *entry, RollupType rollup);
-    void remove_dps(const TimeRange& range);
-    void sort_if_needed();
 
     // return max/min value of the last n dps in m_dps[]
     double get_max(int n) const;
@@ -257,11 +255,6 @@ public:
         m_last_tstamp = ts;
     }
 
-    inline void set_sort_needed()
-    {
-        m_sort_needed = true;
-    }
-
     struct compare_less
     {
         bool operator()(const QueryTask *t1, const QueryTask *t2)
@@ -295,13 +288,13 @@ private:
     Downsampler *m_downsampler;
     TimeSeries *m_ts;   // should NEVER be nullptr
     DataPointVector m_dps;  // results before aggregation
+    std::vector<struct rollup_entry_ext> m_rollups; // input of m_downsampler
     QueryResults m_results; // results after aggregation
     std::vector<DataPointContainer*> m_data;
     uint32_t m_file_index;  // used for both rollup-idx and file-idx
     HeaderIndex m_header_index;
     uint32_t m_tstamp_from;
     bool m_has_ooo;
-    bool m_sort_needed;
     QueryTask *m_parent;
 };
 
@@ -333,9 +326,7 @@ public:
 
 private:
     void query_raw(Tsdb* tsdb, const TimeRange& range, std::vector<QueryTask*>& tasks);
-    void query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, RollupType rollup);
-    void query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, const std::vector<QueryTask*>& tasks, RollupType rollup);
-    void query_rollup_daily(RollupType rollup);
+    void query_rollup(RollupType rollup);
 
     bool m_ms;
     bool m_compact;
diff --git a/src/core/query.cpp b/src/core/query.cpp
index cda0ac0..d631ff1 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -645,21 +645,14 @@ QueryTask::fill()
     }
 }
 
-// add rolled-up data
+// add rolled-up data; they can come from different sources, so they will be
+// handed over to the downsampler later, in chronological order
 void
 QueryTask::add_data_point(struct rollup_entry_ext *entry, RollupType rollup)
 {
     ASSERT(entry != nullptr);
-
-    if (m_downsampler == nullptr)
-    {
-        double val = RollupManager::query((struct rollup_entry*)entry, rollup);
-        m_dps.emplace_back((Timestamp)entry->tstamp, val);
-    }
-    else
-    {
-        m_downsampler->add_data_point(entry, rollup, m_dps);
-    }
+    m_rollups.push_back(*entry);
+    m_rollups.back().tstamp = validate_resolution(entry->tstamp);
 }
 
 void
@@ -676,42 +669,12 @@ QueryTask::convert_to_sec()
         dp.first = to_sec(dp.first);
 }
 
-void
-QueryTask::remove_dps(const TimeRange& range)
-{
-    m_sort_needed = true;
-    m_last_tstamp = TT_INVALID_TIMESTAMP;
-
-    if (m_downsampler != nullptr)
-    {
-        m_downsampler->add_last_point(m_dps);
-        m_downsampler->recycle();
-    }
-
-    for (auto it = m_dps.begin(); it != m_dps.end(); )
-    {
-        Timestamp ts = validate_resolution(it->first);
-
-        if (range.in_range(ts) == 0)
-            it = m_dps.erase(it);
-        else
-            it++;
-    }
-}
-
 bool
 QueryTask::is_empty() const
 {
     return m_dps.empty() && (m_downsampler == nullptr || m_downsampler->is_empty());
 }
 
-void
-QueryTask::sort_if_needed()
-{
-    if (m_sort_needed)
-        std::sort(m_dps.begin(), m_dps.end());
-}
-
 void
 QueryTask::add_container(DataPointContainer *container)
 {
@@ -910,7 +873,6 @@ QueryTask::init()
 {
     m_ts = nullptr;
     m_has_ooo = false;
-    m_sort_needed = false;
     m_file_index = TT_INVALID_FILE_INDEX;
     m_header_index = TT_INVALID_HEADER_INDEX;
     m_downsampler = nullptr;
@@ -925,6 +887,8 @@ QueryTask::recycle()
 {
     m_dps.clear();
     m_dps.shrink_to_fit();
+    m_rollups.clear();
+    m_rollups.shrink_to_fit();
     m_results.recycle();
     ASSERT(m_data.empty());
 
@@ -1042,7 +1006,7 @@ QuerySuperTask::use_rollup() const
         auto task = m_tasks.front();
         Downsampler *downsampler = task->get_downsampler();
 
-        if (downsampler != nullptr)
+        if ((downsampler != nullptr) && ! downsampler->is_all())
         {
             Timestamp downsample_interval = downsampler->get_interval();
             Timestamp rollup_interval = g_rollup_interval_1h;   // always in secs
@@ -1106,135 +1070,137 @@ QuerySuperTask::query_raw(Tsdb *tsdb, const TimeRange& range, std::vector<QueryT
     }
 }
 
+/* For each TimeSeries and each Tsdb, use the daily rollup data if they are usable;
+ * otherwise use the hourly rollup data if they are usable; otherwise use raw data.
+ */
 void
-QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, RollupType rollup)
-{
-    query_rollup_hourly(range, tsdbs, m_tasks, rollup);
-}
-
-void
-QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, const std::vector<QueryTask*>& tasks, RollupType rollup)
+QuerySuperTask::query_rollup(RollupType rollup)
 {
     ASSERT(rollup != RollupType::RU_NONE);
 
-    set_rollup_level(rollup, false);    // convert to level1 rollup
-    std::vector<QueryTask*> tasks_for_raw;
-    std::unordered_set<QueryTask*> taskset;
+    enum Source : uint8_t { SRC_RAW, SRC_HOURLY, SRC_DAILY };
+
+    bool level2 = is_rollup_level2(rollup);
+    Source best = level2 ? SRC_DAILY : SRC_HOURLY;
+    RollupType level1_rollup = rollup;
+    std::vector<std::vector<Source>> sources(m_tasks.size());
+    std::vector<std::size_t> sizes(m_tasks.size(), 0);
+    TimeRange hourly_range(level2 ? TimeRange::MIN : m_time_range);
 
-    RollupManager::query(m_metric_id, range, tasks, rollup);
+    set_rollup_level(level1_rollup, false);
 
-    // for those with invalid rollup, we'll query raw instead
-    for (auto tsdb: tsdbs)
+    for (std::size_t i = 0; i < m_tasks.size(); i++)
     {
-        if (tsdb->can_use_rollup(false))
-            continue;
+        sources[i].reserve(m_tsdbs.size());
 
-        for (QueryTask *task : tasks)
+        for (auto tsdb: m_tsdbs)
         {
-            if (! tsdb->can_use_rollup(task->get_ts_id()))
-            {
-                if (taskset.find(task) == taskset.end())
-                {
-                    taskset.insert(task);
-                    tasks_for_raw.push_back(create_task(task, task->m_ts, tsdb->get_time_range()));
-                    task->remove_dps(tsdb->get_time_range());
-                }
-            }
-        }
-
-        if (! tasks_for_raw.empty())
-            query_raw(tsdb, tsdb->get_time_range(), tasks_for_raw);
+            Source src = SRC_RAW;
 
-        // cleanup
-        taskset.clear();
-        for (auto task: tasks_for_raw)
-        {
-            for (auto dp: task->m_dps)
-                task->m_parent->m_dps.push_back(dp);
-            if (task->m_downsampler != nullptr)
-                task->m_downsampler->add_last_point(task->m_parent->m_dps);
-            MemoryManager::free_recyclable(task);
+            if (tsdb->can_use_rollup(m_tasks[i]->get_ts_id()))
+                src = (level2 && tsdb->has_daily_rollup()) ? SRC_DAILY : SRC_HOURLY;
+            if (level2 && (src == SRC_HOURLY))
+                hourly_range.merge(tsdb->get_time_range());
+            sources[i].push_back(src);
         }
-        tasks_for_raw.clear();
     }
 
-    for (auto task: tasks)
-        task->query_ts_data(range, rollup, m_ms);
-}
-
-void
-QuerySuperTask::query_rollup_daily(RollupType rollup)
-{
-    ASSERT(is_rollup_level2(rollup));
-    ASSERT(rollup != RollupType::RU_NONE);
+    // keep those, collected since last time, that came from the right source
+    auto keep = [&](Source src)
+    {
+        for (std::size_t i = 0; i < m_tasks.size(); i++)
+        {
+            std::size_t j = 0, size = sizes[i];
+            auto& entries = m_tasks[i]->m_rollups;
 
-    RollupManager::query(m_metric_id, m_time_range, m_tasks, rollup);
+            std::stable_sort(entries.begin()+size, entries.end(),
+                [](const struct rollup_entry_ext& e1, const struct rollup_entry_ext& e2) { return e1.tstamp < e2.tstamp; });
 
-    std::vector<Tsdb*> tsdbs;
-    std::unordered_set<QueryTask*> taskset;
+            for (auto k = size; k < entries.size(); k++)
+            {
+                while ((j < m_tsdbs.size()) && (m_tsdbs[j]->in_range_strictly(entries[k].tstamp) > 0))
+                    j++;
 
-    // for those with invalid rollup data, we'll query raw instead
-    for (auto tsdb: m_tsdbs)
-    {
-        if (tsdb->can_use_rollup(true))
-            continue;
+                bool found = (j < m_tsdbs.size()) && (m_tsdbs[j]->in_range_strictly(entries[k].tstamp) == 0);
 
-        if (! tsdb->has_daily_rollup())
-        {
-            tsdbs.push_back(tsdb);
-            for (auto task: m_tasks)
-                taskset.insert(task);
-        }
+                if ((found ? sources[i][j] : best) != src)
+                    continue;
 
-        bool found = false;
+                // a month could have been rolled up more than once
+                if ((src == SRC_DAILY) && (size > 0) && (entries[size-1].tstamp == entries[k].tstamp))
+                    size--;
 
-        for (auto task: m_tasks)
-        {
-            if (! tsdb->can_use_rollup(task->get_ts_id()))
-            {
-                found = true;
-                taskset.insert(task);
+                entries[size++] = entries[k];
             }
+
+            entries.resize(size);
+            sizes[i] = size;
         }
+    };
+
+    if (level2)
+    {
+        RollupManager::query(m_metric_id, m_time_range, m_tasks, rollup);
+        keep(SRC_DAILY);
+        hourly_range.intersect(m_time_range);
+    }
 
-        if (found)
-            tsdbs.push_back(tsdb);
+    if (hourly_range.get_from() <= hourly_range.get_to())
+    {
+        RollupManager::query(m_metric_id, hourly_range, m_tasks, level1_rollup);
+        for (auto task: m_tasks)
+            task->query_ts_data(hourly_range, level1_rollup, m_ms);
+        keep(SRC_HOURLY);
     }
 
-    if (! tsdbs.empty())
+    for (std::size_t j = 0; j < m_tsdbs.size(); j++)
     {
-        ASSERT(! taskset.empty());
-        TimeRange range(TimeRange::MIN);
+        std::vector<QueryTask*> tasks;
+        TimeRange range(m_tsdbs[j]->get_time_range());
 
-        for (auto tsdb: tsdbs)
-            range.merge(tsdb->get_time_range());
         range.intersect(m_time_range);
 
-        // need to temporarily update the downsamplers in QueryTasks
-        // to reflect the new 'range' before calling query_rollup_hourly()
-        for (auto task: m_tasks)
+        for (std::size_t i = 0; i < m_tasks.size(); i++)
         {
-            task->remove_dps(range);
-            task->set_last_tstamp(TT_INVALID_TIMESTAMP);
+            if (sources[i][j] == SRC_RAW)
+            {
+                QueryTask *task = (QueryTask*)
+                    MemoryManager::alloc_recyclable(RecyclableType::RT_QUERY_TASK);
+                task->m_ts = m_tasks[i]->m_ts;
+                task->m_parent = m_tasks[i];
+                task->m_time_range = range;
+                tasks.push_back(task);
+            }
         }
 
-        std::vector<QueryTask*> tasks;
-
-        for (auto task: taskset)
-            tasks.push_back(create_task(task, task->m_ts, range));
-
-        ASSERT(rollup != RollupType::RU_NONE);
-        query_rollup_hourly(range, tsdbs, tasks, rollup);
+        query_raw(m_tsdbs[j], range, tasks);
 
         for (auto task: tasks)
         {
-            for (auto dp: task->m_dps)
-                task->m_parent->m_dps.push_back(dp);
-            if (task->m_downsampler != nullptr)
-                task->m_downsampler->add_last_point(task->m_parent->m_dps);
+            struct rollup_entry_ext entry;
+
+            entry.tid = task->get_ts_id();
+            entry.cnt = 1;
+
+            for (auto& dp: task->m_dps)
+            {
+                entry.tstamp = dp.first;
+                entry.min = entry.max = entry.sum = dp.second;
+                task->m_parent->m_rollups.push_back(entry);
+            }
+
             MemoryManager::free_recyclable(task);
         }
     }
+
+    for (auto task: m_tasks)
+    {
+        std::stable_sort(task->m_rollups.begin(), task->m_rollups.end(),
+            [](const struct rollup_entry_ext& e1, const struct rollup_entry_ext& e2) { return e1.tstamp < e2.tstamp; });
+        for (auto& entry: task->m_rollups)
+            task->m_downsampler->add_data_point(&entry, level1_rollup, task->m_dps);
+        task->m_rollups.clear();
+    }
 }
 
 void
@@ -1246,7 +1212,6 @@ QuerySuperTask::perform(bool lock)
     try
     {
         RollupType rollup = use_rollup();
-        bool level2 = is_rollup_level2(rollup);
         Tsdb::insts(m_time_range, m_tsdbs);
 
         ASSERT(! m_tasks.empty());
@@ -1259,13 +1224,9 @@ QuerySuperTask::perform(bool lock)
             for (auto tsdb: m_tsdbs)
                 query_raw(tsdb, range, m_tasks);
         }
-        else if (! level2)  // query hourly rollup
-        {
-            query_rollup_hourly(m_time_range, m_tsdbs, rollup);
-        }
-        else    // query daily rollup
+        else
         {
-            query_rollup_daily(rollup);
+            query_rollup(rollup);
         }
 
         for (auto it = m_tasks.begin(); it != m_tasks.end(); )
@@ -1275,7 +1236,6 @@ QuerySuperTask::perform(bool lock)
             if (task->m_downsampler != nullptr)
                 task->m_downsampler->add_last_point(task->m_dps);
 
-            task->sort_if_needed();
             task->fill();
 
             if (m_ms)
-- 
2.43.0


From f88187cdae859316f432f96100eb1307560e299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:32 +0000
Subject: [PATCH 17/54] fix: keep hourly rollups in step with the points
 written

Late points discarded the current hour, a month change or a restart shifted
the positions in the monthly file, points arriving after the monthly run or
with rollup disabled were ignored by later queries, and the monthly run
missed hours that were still in memory.
---
 include/rollup.h   |  3 +-
 include/ts.h       |  1 +
 src/agg/rollup.cpp | 92 +++++++++++++++++++++++++++-------------------
 src/core/mmap.cpp  | 34 +++++++++--------
 src/core/ts.cpp    | 49 ++++++++++--------------
 src/core/tsdb.cpp  | 22 ++++++++++-
 6 files changed, 115 insertions(+), 86 deletions(-)

diff --git a/include/rollup.h b/include/rollup.h
index 7011bb7..deb04cc 100644
--- a/include/rollup.h
+++ b/include/rollup.h
@@ -54,10 +54,10 @@ public:
     static void shutdown();
 
     // process in-order dps only
-    void update_data_file(MetricId mid, DataPoint& dp);
     void add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPoint& dp);
     void flush(MetricId mid, TimeSeriesId tid);
     void close(TimeSeriesId tid);   // called during TT shutdown
+    void close_month(MetricId mid, TimeSeriesId tid, const TimeRange& range);   // called before level2 rollup
 
     inline Timestamp get_tstamp() const { return m_tstamp; }
 
@@ -87,6 +87,7 @@ public:
 #endif
 
 private:
+    void open_data_file(MetricId mid);
     static Timestamp step_down(Timestamp tstamp);
     static RollupDataFile *get_data_file(MetricId mid, Timestamp tstamp, std::unordered_map<uint64_t, RollupDataFile*>& map, RollupLevel level, Config *cfg);
     static RollupDataFile *get_or_create_data_file(MetricId mid, Timestamp tstamp, std::unordered_map<uint64_t, RollupDataFile*>& map, RollupLevel level, Config *cfg);
diff --git a/include/ts.h b/include/ts.h
index 4b05f85..fce0044 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -53,6 +53,7 @@ public:
     static void cleanup();  // called by Tsdb::shutdown()
     void init(TimeSeriesId id, const char *metric, const char *key, Tag *tags);
     void restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset, uint8_t start, uint8_t *buff, int size, bool is_ooo, FileIndex file_idx, HeaderIndex header_idx);
+    void close_rollup(MetricId mid, const TimeRange& range);    // before level2 rollup
     void restore_rollup_mgr(const struct rollup_entry_ext& mgr);
 
     inline TimeSeriesId get_id() const { return m_id; }
diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 07bfe2d..1a0ddd6 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -177,19 +177,17 @@ RollupManager::shutdown()
     }
 }
 
+// make sure 'm_data_file' is the one for 'm_tstamp'
 void
-RollupManager::update_data_file(MetricId mid, DataPoint& dp)
+RollupManager::open_data_file(MetricId mid)
 {
-    Timestamp tstamp = to_sec(dp.get_timestamp());
-    Timestamp interval = g_rollup_interval_1h;
-    Timestamp tstamp1 = tstamp - (tstamp % interval);
+    ASSERT(m_tstamp != TT_INVALID_TIMESTAMP);
 
-    // reject new data if the rollup data file has already been re-compressed
-    if ((m_data_file == nullptr) || (m_data_file->get_begin_timestamp() != Calendar::begin_month_of(tstamp1)))
+    if ((m_data_file == nullptr) || (m_data_file->get_begin_timestamp() != Calendar::begin_month_of(m_tstamp)))
     {
         if (m_data_file != nullptr)
             m_data_file->dec_ref_count();
-        m_data_file = get_or_create_data_file(mid, tstamp1);
+        m_data_file = get_or_create_data_file(mid, m_tstamp);
     }
 
     ASSERT(m_data_file != nullptr);
@@ -204,42 +202,42 @@ RollupManager::add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPo
     Timestamp interval = g_rollup_interval_1h;
     double value = dp.get_value();
 
-    if (m_tstamp == TT_INVALID_TIMESTAMP)
-        m_tstamp = Calendar::begin_month_of(tstamp);
-
     // step-down
     ASSERT(interval > 0);
     Timestamp tstamp1 = tstamp - (tstamp % interval);
 
-    if (UNLIKELY((m_data_file != nullptr) && (3 <= m_data_file->get_compressor_version())))
+    if ((m_tstamp != TT_INVALID_TIMESTAMP) && (tstamp1 < m_tstamp))
     {
-        // this file has already been re-compressed
-        tsdb->set_out_of_order2(tid, true);     // this will cause query to skip this rollup file
-        m_cnt = 0;  // invalidate any data currently in buffer
+        // out-of-order!!!
+        tsdb->set_out_of_order2(tid, true);
         return;
     }
 
-    if (tstamp1 > m_tstamp)
+    if (tstamp1 != m_tstamp)
     {
-        flush(mid, tid);
+        Timestamp begin = Calendar::begin_month_of(tstamp);
 
-        Timestamp end = Calendar::end_month_of(m_tstamp);
+        if (m_tstamp != TT_INVALID_TIMESTAMP)
+        {
+            flush(mid, tid);
+            m_tstamp += interval;
+        }
 
-        for (m_tstamp += interval; (m_tstamp < end) && (m_tstamp < tstamp1); m_tstamp += interval)
+        if ((m_tstamp == TT_INVALID_TIMESTAMP) || (m_tstamp < begin))
+            m_tstamp = begin;
+
+        for ( ; m_tstamp < tstamp1; m_tstamp += interval)
             flush(mid, tid);
 
-        if (m_tstamp >= end)
-        {
-            for (m_tstamp = Calendar::begin_month_of(tstamp); m_tstamp < tstamp1; m_tstamp += interval)
-                flush(mid, tid);
-        }
+        open_data_file(mid);
     }
-    else if (tstamp1 < m_tstamp)
+    else if (UNLIKELY(m_data_file == nullptr))
+        open_data_file(mid);
+
+    if (UNLIKELY(3 <= m_data_file->get_compressor_version()))
     {
-        // out-of-order!!!
-        tsdb->set_out_of_order2(tid, true);
-        m_cnt = 0;  // invalidate any data currently in buffer
-        return;
+        // this file has already been re-compressed
+        tsdb->set_out_of_order2(tid, true);     // this will cause query to skip this rollup file
     }
 
     m_cnt++;
@@ -257,16 +255,10 @@ RollupManager::flush(MetricId mid, TimeSeriesId tid)
         return;
 
     // write to rollup files
-    if ((m_data_file == nullptr) || (m_data_file->get_begin_timestamp() != Calendar::begin_month_of(m_tstamp)))
-    {
-        if (m_data_file != nullptr)
-            m_data_file->dec_ref_count();
-        m_data_file = get_or_create_data_file(mid, m_tstamp);
-    }
+    open_data_file(mid);
 
-    ASSERT(m_data_file != nullptr);
-    ASSERT(m_data_file->get_begin_timestamp() == begin_month(m_tstamp));
-    m_data_file->add_data_point(tid, m_cnt, m_min, m_max, m_sum);
+    if (LIKELY(m_data_file->get_compressor_version() < 3))  // not re-compressed yet
+        m_data_file->add_data_point(tid, m_cnt, m_min, m_max, m_sum);
 
     // reset
     m_cnt = 0;
@@ -275,10 +267,30 @@ RollupManager::flush(MetricId mid, TimeSeriesId tid)
     m_sum = 0.0;
 }
 
+// The month of 'm_tstamp' is about to be rolled up
+void
+RollupManager::close_month(MetricId mid, TimeSeriesId tid, const TimeRange& range)
+{
+    if ((m_tstamp != TT_INVALID_TIMESTAMP) && (range.in_range_strictly(m_tstamp) == 0))
+    {
+        if (m_cnt != 0)
+        {
+            flush(mid, tid);
+            m_tstamp += g_rollup_interval_1h;
+        }
+    }
+
+    if ((m_data_file != nullptr) && (range.in_range_strictly(m_data_file->get_begin_timestamp()) == 0))
+    {
+        m_data_file->dec_ref_count();
+        m_data_file = nullptr;
+    }
+}
+
 void
 RollupManager::close(TimeSeriesId tid)
 {
-    if (m_tstamp == TT_INVALID_TIMESTAMP || m_cnt == 0)
+    if (m_tstamp == TT_INVALID_TIMESTAMP)
         return;
 
     if (m_wal_data_file != nullptr)
@@ -406,6 +418,10 @@ RollupManager::query(MetricId mid, const TimeRange& range, const std::vector<Que
 
     for (auto file: data_files)
     {
+        // positions of entries are relative to the beginning of the file
+        for (auto task: tasks)
+            task->set_last_tstamp(TT_INVALID_TIMESTAMP);
+
         if (level2)
             file->query_level2(range, map, rollup);
         else
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 0ba55ec..a333f40 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1265,7 +1265,7 @@ RollupDataFile::open_4_recompress()
     replace_last(name, "/rollup/", "/rollup2/");
     create_dir(name, true);
 
-    int fd = ::open(name.c_str(), O_RDWR|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
+    int fd = ::open(name.c_str(), O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
 
     if (fd == -1)
@@ -1749,7 +1749,7 @@ RollupDataFile::query_level1_compressor_v1_v2(const TimeRange& range, std::unord
             len = RollupCompressor_v1::uncompress2((uint8_t*)(m_buff+i), m_index-i, &entry, m_compressor_precision);
         }
         if (len <= 0) break;
-        if (query_entry(range, &entry, map, rollup) > 0) break;
+        query_entry(range, &entry, map, rollup);
     }
 }
 
@@ -1973,7 +1973,11 @@ RollupDataFile::query_for_level2_rollup(std::unordered_map<TimeSeriesId,std::vec
     struct rollup_entry_ext ext;
     std::lock_guard<std::mutex> guard(m_lock);
 
-    flush();
+    if (m_index > 0)
+    {
+        ensure_open(false);
+        flush();
+    }
 
     for (struct rollup_entry *entry = first_entry(cursor); entry != nullptr; entry = next_entry(cursor))
     {
@@ -2047,21 +2051,19 @@ RollupDataFile::recompress(std::unordered_map<TimeSeriesId,std::vector<struct ro
 
                 if (entry.cnt != 0)
                 {
-                    double min_delta = entry.min - prev_min;
-                    double min_dod = min_delta - prev_min_delta;
-                    double max_delta = entry.max - prev_max;
-                    double max_dod = max_delta - prev_max_delta;
-                    double sum_delta = entry.sum - prev_sum;
-                    double sum_dod = sum_delta - prev_sum_delta;
+                    double min_dod = (entry.min - prev_min) - prev_min_delta;
+                    double max_dod = (entry.max - prev_max) - prev_max_delta;
+                    double sum_dod = (entry.sum - prev_sum) - prev_sum_delta;
 
-                    prev_cnt = entry.cnt;
-                    prev_min = entry.min; prev_min_delta = min_delta;
-                    prev_max = entry.max; prev_max_delta = max_delta;
-                    prev_sum = entry.sum; prev_sum_delta = sum_delta;
+                    // keep what will be restored, so that errors won't accumulate
+                    prev_min_delta += Compressor::compress4(min_dod, m_compressor_precision, bitset);
+                    prev_max_delta += Compressor::compress4(max_dod, m_compressor_precision, bitset);
+                    prev_sum_delta += Compressor::compress4(sum_dod, m_compressor_precision, bitset);
 
-                    Compressor::compress4(min_dod, m_compressor_precision, bitset);
-                    Compressor::compress4(max_dod, m_compressor_precision, bitset);
-                    Compressor::compress4(sum_dod, m_compressor_precision, bitset);
+                    prev_cnt = entry.cnt;
+                    prev_min += prev_min_delta;
+                    prev_max += prev_max_delta;
+                    prev_sum += prev_sum_delta;
                 }
             }
 
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 55f983b..cbf86f2 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -279,7 +279,7 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     const double value = dp.get_value();
     const Timestamp tstamp = dp.get_timestamp();
     bool is_ooo = isnan(value) || isinf(value);
-    bool update_rollup = false;
+    bool new_tsdb = false;
     //std::lock_guard<std::mutex> guard(m_lock);
 
     // timestamp can't be 14 digits or more
@@ -296,7 +296,7 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
         is_ooo = is_ooo || ! is_after_last(tsdb, mid, tstamp);
         if (! is_ooo)
         {
-            update_rollup = true;
+            new_tsdb = true;
             m_buff = new PageInMemory(mid, m_id, tsdb, false);
         }
         else
@@ -322,7 +322,7 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
                 // reset the m_buff
                 m_buff->init(mid, m_id, tsdb, false);
-                update_rollup = true;
+                new_tsdb = true;
             }
             else
                 tsdb->dec_ref_count();
@@ -362,11 +362,9 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
     // rollup
     if (g_rollup_enabled)
-    {
-        if (update_rollup)
-            m_rollup.update_data_file(mid, dp);
         m_rollup.add_data_point(m_buff->get_tsdb(), mid, m_id, dp);
-    }
+    else if (new_tsdb)
+        m_buff->get_tsdb()->set_out_of_order2(m_id, true);  // no rollup data for this one
 
     return ok;
 }
@@ -389,7 +387,6 @@ TimeSeries::is_after_last(Tsdb *tsdb, MetricId mid, Timestamp tstamp)
 bool
 TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
 {
-    bool update_rollup = false;
     const Timestamp tstamp = dp.get_timestamp();
 
     // Make sure we have a valid m_ooo_buff (PageInMemory)
@@ -398,7 +395,6 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
         Tsdb *tsdb = Tsdb::inst(tstamp, true);
         m_ooo_buff = new PageInMemory(mid, m_id, tsdb, true);
         tsdb->set_out_of_order(m_id, true);
-        update_rollup = true;
     }
     else if (m_ooo_buff->in_range_strictly(tstamp) != 0)
     {
@@ -410,7 +406,6 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
         Tsdb *tsdb = Tsdb::inst(tstamp, true);
         m_ooo_buff->init(mid, m_id, tsdb, true);
         tsdb->set_out_of_order(m_id, true);
-        update_rollup = true;
     }
 
     bool ok = m_ooo_buff->add_data_point(tstamp, dp.get_value());
@@ -433,13 +428,8 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
         ASSERT(ok);
     }
 
-    // rollup
-    if (g_rollup_enabled)
-    {
-        if (update_rollup)
-            m_rollup.update_data_file(mid, dp);
-        m_rollup.add_data_point(m_ooo_buff->get_tsdb(), mid, m_id, dp);
-    }
+    // rollup data can't be updated; do not use them
+    m_ooo_buff->get_tsdb()->set_out_of_order2(m_id, true);
 
     return ok;
 }
@@ -506,21 +496,13 @@ TimeSeries::query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType r
 {
     ASSERT(rollup != RollupType::RU_NONE);
 
-    Timestamp ts = m_rollup.get_tstamp();   // in seconds
-
-    if (is_ms(range.get_from()))
-        ts *= 1000;
+    struct rollup_entry_ext entry;
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
-    if (range.in_range(ts) == 0)
+    if (m_rollup.get(entry) && (range.in_range(validate_resolution(entry.tstamp)) == 0))
     {
-        struct rollup_entry_ext entry;
-
-        if (m_rollup.get(entry))
-        {
-            if (ms) entry.tstamp *= 1000;
-            entry.tid = m_id;
-            qt->add_data_point(&entry, rollup);
-        }
+        entry.tid = m_id;
+        qt->add_data_point(&entry, rollup);
     }
 }
 
@@ -546,6 +528,13 @@ TimeSeries::archive(MetricId mid, Timestamp now_sec, Timestamp threshold_sec)
         flush_no_lock(mid, true);
 }
 
+void
+TimeSeries::close_rollup(MetricId mid, const TimeRange& range)
+{
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
+    m_rollup.close_month(mid, m_id, range);
+}
+
 void
 TimeSeries::restore_rollup_mgr(const struct rollup_entry_ext& entry)
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 3c5f39a..0e0f44f 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3780,6 +3780,15 @@ Tsdb::rollup(TaskData& data)
             Config::inst()->get_time(CFG_TSDB_ROLLUP_PAUSE,TimeUnit::SEC,CFG_TSDB_ROLLUP_PAUSE_DEF);
         bool recompress_success = true;
         std::vector<RollupDataFile*> data_files_level1;
+        std::vector<Mapping*> mappings;
+
+        // include those not yet written to level1 data files
+        get_all_mappings(mappings);
+        for (auto mapping: mappings)
+        {
+            for (TimeSeries *ts = mapping->get_ts_head(); ts != nullptr; ts = ts->m_next)
+                ts->close_rollup(mapping->get_id(), month_range);
+        }
 
         for (int bucket = 0; bucket < bucket_count; bucket++)
         {
@@ -3789,6 +3798,13 @@ Tsdb::rollup(TaskData& data)
             if (data_file_level1 == nullptr)
                 continue;
 
+            // has this month been rolled up before?
+            if (3 <= data_file_level1->get_compressor_version())
+            {
+                data_file_level1->dec_ref_count();
+                continue;
+            }
+
             std::unordered_map<TimeSeriesId,std::vector<struct rollup_entry_ext>> data;
             data_file_level1->query_for_level2_rollup(data);
             recompress_success = recompress_success && data_file_level1->recompress(data);
@@ -3805,7 +3821,7 @@ Tsdb::rollup(TaskData& data)
                 std::this_thread::sleep_for(std::chrono::seconds(pause));
         }
 
-        if (recompress_success)
+        if (recompress_success && ! data_files_level1.empty())
         {
             // switch to newly compressed rollup files
             recompress_success = RollupManager::swap_recompressed_files(data_files_level1);
@@ -3827,7 +3843,11 @@ Tsdb::rollup(TaskData& data)
             Logger::info("[rollup] rolled up %d Tsdbs.", data.integer);
         }
         else
+        {
+            for (auto tsdb: tsdbs)
+                tsdb->dec_ref_count();
             Logger::warn("[rollup] rollup failed.");
+        }
     }
     else
     {
-- 
2.43.0


From 1363baaaaf1340b79d3a91c1850063bc7d4dfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:53 +0000
Subject: [PATCH 18/54] fix: recover from the append log without losing pages
 written after it

The log entry of a page says which page came before it when the log was
written. Pages may have been added since, and linking the restored page to
the old one dropped them. Continue from the last page instead.

Also skip the data of an entry whose series is not known, and keep the log
when it was restored from append.tmp, since nothing else has the data yet.
---
 src/core/page.cpp    |  2 ++
 src/utils/append.cpp | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/core/page.cpp b/src/core/page.cpp
index ea77459..8d10143 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -247,6 +247,8 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, File
     m_tsdb = tsdb;
     m_start = from;
 
+    // pages may have been added since the WAL was written; always continue from the last one
+    tsdb->get_last_header_indices(mid, tid, file_idx, header_idx);
     m_page_header.m_next_file = file_idx;
     m_page_header.m_next_header = header_idx;
     ASSERT((file_idx == TT_INVALID_FILE_INDEX) || (tsdb->get_header_file(mid, file_idx) != nullptr));
diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index 65c91ad..5c46950 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -165,15 +165,6 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
         //if (! is_ooo)
             //bytes += sizeof(struct rollup_append_entry);
 
-        if (tsv.size() <= tid)
-        {
-            Logger::error("Time series %u in append log, but not present in meta file", tid);
-            continue;
-        }
-
-        TimeSeries *ts = tsv[tid];
-        ASSERT(ts != nullptr);
-
         size = ::fread(buff, bytes, 1, file);
 
         if (size < 1)
@@ -182,6 +173,14 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
             break;
         }
 
+        if ((tsv.size() <= tid) || (tsv[tid] == nullptr))
+        {
+            Logger::error("Time series %u in append log, but not present in meta file", tid);
+            continue;
+        }
+
+        TimeSeries *ts = tsv[tid];
+
         Tsdb *tsdb = Tsdb::inst(tstamp, false);
 
         if (tsdb == nullptr)
@@ -199,7 +198,12 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
     if (file != nullptr)
         fclose(file);
 
-    rm_file(tmp_name);
+    // what was just restored is still only in memory; keep its log
+    if (name == log_name)
+        rm_file(tmp_name);
+    else if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
+        Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
+
     MemoryManager::free_network_buffer(buff);
 
     if (oldest_tsdb != nullptr)
-- 
2.43.0


From 3ff26684d4fc73946c4d1e67055ecc10cba95f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:53 +0000
Subject: [PATCH 19/54] fix: write new metrics and series to the meta files
 right away

Data files refer to series by id. If the process was killed before the meta
files were flushed, the next series got the same id, and with it the data
of the one that was lost.
---
 src/utils/meta.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 3e8addb..3c2b475 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -197,7 +197,10 @@ MetaFile::open()
         m_ts_file = fdopen(fd, "a");
         if (m_ts_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if (is_new)    // 1st line: ticktock version
+        else
+            setvbuf(m_ts_file, nullptr, _IOLBF, BUFSIZ);   // data files refer to these ids
+
+        if ((m_ts_file != nullptr) && is_new)   // 1st line: ticktock version
             fprintf(m_ts_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
     }
 
@@ -215,7 +218,10 @@ MetaFile::open()
         m_metrics_file = fdopen(fd, "a");
         if (m_metrics_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if (is_new)    // 1st line: ticktock version
+        else
+            setvbuf(m_metrics_file, nullptr, _IOLBF, BUFSIZ);   // data files refer to these ids
+
+        if ((m_metrics_file != nullptr) && is_new)   // 1st line: ticktock version
             fprintf(m_metrics_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
     }
 }
-- 
2.43.0


From 5e6087331b151bb77ac3695d8b2cf15b60bcfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:53 +0000
Subject: [PATCH 20/54] fix: never leave a day with half a config

The config of a day was rewritten in place. Killed in between, the next
start read the day with default page size and count. Write it to a
temporary file first, and treat a folder without a config as new.
---
 src/core/tsdb.cpp    | 11 ++++++++++-
 src/utils/config.cpp |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 0e0f44f..75b0f9e 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1141,9 +1141,18 @@ Tsdb::create(TimeRange& range, bool existing, const char *suffix)
     ASSERT(! ((suffix != nullptr) && existing));
 
     Tsdb *last_tsdb = nullptr;
-    Tsdb *tsdb = new Tsdb(range, existing, suffix);
     std::string dir = get_tsdb_dir_name(range, suffix);
 
+    // died after creating the folder, and before there was anything in it?
+    if (existing && ! file_exists(dir + "/config"))
+    {
+        std::vector<std::string> metric_dirs;
+        get_all_files(dir + "/m*", metric_dirs);
+        existing = ! metric_dirs.empty();
+    }
+
+    Tsdb *tsdb = new Tsdb(range, existing, suffix);
+
     if (suffix == nullptr)
     {
         if (! m_tsdbs.empty())
diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index c7b21eb..f927477 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -312,13 +312,18 @@ Config::persist()
 {
     bool version_exists = exists("ticktockdb.version");
     std::lock_guard<std::mutex> guard(m_lock);
-    std::fstream file(m_file_name, std::ios::out | std::ios::trunc);
+    std::string tmp_name = m_file_name + ".tmp";    // never leave half a config behind
+    std::fstream file(tmp_name, std::ios::out | std::ios::trunc);
 
     if (! version_exists)
         file << "ticktockdb.version = " << TT_MAJOR_VERSION << "." << TT_MINOR_VERSION << "." << TT_PATCH_VERSION << std::endl;
 
     for (const auto& prop: m_properties)
         file << prop.second->get_name() << " = " << prop.second->as_str() << std::endl;
+
+    file.close();
+    if (file.fail() || (std::rename(tmp_name.c_str(), m_file_name.c_str()) != 0))
+        Logger::error("Failed to write config file %s, errno = %d", m_file_name.c_str(), errno);
 }
 
 void
-- 
2.43.0


From d46ab1f5136da9fb80b8a9003c703502930fd214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:53 +0000
Subject: [PATCH 21/54] fix: survive being killed while creating or extending
 data files

A header file without its data file, a header or index file that was not
initialized yet, and a data page without a header made the next writes
crash or lose pages.
---
 include/mmap.h    |  4 ++
 src/core/mmap.cpp | 97 ++++++++++++++++++++++++++++++-----------------
 src/core/tsdb.cpp | 17 ++++++++-
 3 files changed, 83 insertions(+), 35 deletions(-)

diff --git a/include/mmap.h b/include/mmap.h
index e31c501..5956153 100644
--- a/include/mmap.h
+++ b/include/mmap.h
@@ -113,6 +113,7 @@ public:
 
 private:
     bool expand(int64_t new_len);
+    void append_entries(uint64_t count);
 
 #if (__x86_64__ == 1) || (__ARM_64BIT_STATE == 1)
     std::atomic<Timestamp> m_last_access;
@@ -141,9 +142,11 @@ public:
     struct page_info_on_disk *get_page_header(HeaderIndex header_idx);
     inline FileIndex get_id() const { return m_id; }
     bool is_full();
+    PageCount get_used_pages();
     void update_next(HeaderIndex prev_header_idx, FileIndex this_file_idx, HeaderIndex this_header_idx);
 
     static HeaderFile *restore(const std::string& file_name);
+    static bool is_initialized(const std::string& file_name);
 
     // for testing only
     int count_pages(bool ooo);
@@ -170,6 +173,7 @@ public:
     bool close_if_idle(Timestamp threshold_sec, Timestamp now_sec);
     void flush(bool sync) override;
 
+    void truncate(PageCount pages);
     PageCount append(const void *page, PageSize size);
     inline FileIndex get_id() const { return m_id; }
     inline PageSize get_offset() const { return m_offset; }
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index a333f40..800cd01 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -17,6 +17,7 @@
  */
 
 #include <fcntl.h>
+#include <fstream>
 #include <iomanip>
 #include <sys/mman.h>
 #include <sys/stat.h>
@@ -328,28 +329,13 @@ IndexFile::IndexFile(const std::string& file_name) :
 void
 IndexFile::open(bool for_read)
 {
-    bool is_new = ! exists();
+    struct stat sb;
+    bool is_new = (stat(m_name.c_str(), &sb) != 0) || (sb.st_size == 0);
     if (is_new && for_read) return;
 
-    if (is_new)
-    {
-        MmapFile::open(TT_SIZE_INCREMENT, for_read, false, true);
-        struct index_entry *entries = (struct index_entry*)get_pages();
-        ASSERT(entries != nullptr);
-        uint64_t max_idx = get_length() / TT_INDEX_SIZE;
-
-        // TODO: memcpy()?
-        for (uint64_t i = 0; i < max_idx; i++)
-        {
-            entries[i].file_index = TT_INVALID_FILE_INDEX;
-            entries[i].file_index2 = TT_INVALID_FILE_INDEX;
-        }
-    }
-    else
-    {
-        MmapFile::open_existing(for_read, false);
-        ASSERT(get_pages() != nullptr);
-    }
+    if (is_new) append_entries(TT_SIZE_INCREMENT / TT_INDEX_SIZE);
+    MmapFile::open_existing(for_read, false);
+    ASSERT(get_pages() != nullptr);
 
     Logger::debug("index file %s length: %" PRIu64, m_name.c_str(), get_length());
     Logger::debug("opening %s for %s", m_name.c_str(), for_read?"read":"write");
@@ -379,6 +365,24 @@ IndexFile::ensure_open(bool for_read)
     MmapFile::ensure_open(for_read);
 }
 
+// Entries are never in the file without having been initialized.
+void
+IndexFile::append_entries(uint64_t count)
+{
+    struct index_entry entry;
+    std::memset(&entry, 0, sizeof(entry));
+    entry.file_index = TT_INVALID_FILE_INDEX;
+    entry.header_index = TT_INVALID_HEADER_INDEX;
+    entry.file_index2 = TT_INVALID_FILE_INDEX;
+    entry.header_index2 = TT_INVALID_HEADER_INDEX;
+    std::vector<struct index_entry> entries(count, entry);
+
+    int fd = ::open(m_name.c_str(), O_WRONLY|O_CREAT|O_APPEND, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
+    if ((fd == -1) || (::write(fd, entries.data(), count * TT_INDEX_SIZE) != (ssize_t)(count * TT_INDEX_SIZE)))
+        Logger::error("Failed to write index file %s, errno = %d", m_name.c_str(), errno);
+    if (fd != -1) ::close(fd);
+}
+
 bool
 IndexFile::expand(int64_t new_len)
 {
@@ -387,23 +391,11 @@ IndexFile::expand(int64_t new_len)
     ASSERT((old_len % TT_INDEX_SIZE) == 0);
     ASSERT((new_len % TT_INDEX_SIZE) == 0);
 
+    append_entries((new_len - old_len) / TT_INDEX_SIZE);
+
     if (! this->resize(new_len))
         return false;
 
-    uint64_t old_idx = old_len / TT_INDEX_SIZE;
-    uint64_t new_idx = new_len / TT_INDEX_SIZE;
-    struct index_entry *entries = (struct index_entry*)get_pages();
-
-    // TODO: memcpy()?
-    for ( ; old_idx < new_idx; old_idx++)
-    {
-        entries[old_idx].flags = 0;
-        entries[old_idx].file_index = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index = TT_INVALID_HEADER_INDEX;
-        entries[old_idx].file_index2 = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index2 = TT_INVALID_HEADER_INDEX;
-    }
-
     Logger::debug("index file %s length: %" PRIu64, m_name.c_str(), get_length());
 
     return true;
@@ -661,6 +653,15 @@ HeaderFile::init_tsdb_header(PageSize page_size)
     ASSERT(header->m_actual_pg_cnt > 0);
 }
 
+// False if we died while creating this file. There can't be any pages in it.
+bool
+HeaderFile::is_initialized(const std::string& file_name)
+{
+    struct tsdb_header header;
+    std::ifstream file(file_name, std::ios::binary);
+    return file.read((char*)&header, sizeof(header)) && (header.m_page_count != 0);
+}
+
 HeaderFile *
 HeaderFile::restore(const std::string& file_name)
 {
@@ -811,6 +812,23 @@ HeaderFile::is_full()
     return tsdb_header->is_full();
 }
 
+// Number of pages in the data file that we know of.
+PageCount
+HeaderFile::get_used_pages()
+{
+    PageCount pages = 0;
+    HeaderIndex count = get_tsdb_header()->m_header_index;
+
+    for (HeaderIndex i = 0; i < count; i++)
+    {
+        struct page_info_on_disk *header = get_page_header(i);
+        if (header->is_valid())
+            pages = std::max(pages, (PageCount)(header->m_page_index + 1));
+    }
+
+    return pages;
+}
+
 // for testing only
 int
 HeaderFile::count_pages(bool ooo)
@@ -1041,6 +1059,17 @@ DataFile::append(const void *page, PageSize size)
     return idx;
 }
 
+// Drop pages written right before we died, without their headers.
+void
+DataFile::truncate(PageCount pages)
+{
+    struct stat sb;
+    int64_t length = (int64_t)m_page_size * (int64_t)pages;
+
+    if ((stat(m_name.c_str(), &sb) == 0) && (length < sb.st_size) && (::truncate(m_name.c_str(), length) != 0))
+        Logger::error("Failed to truncate %s, errno = %d", m_name.c_str(), errno);
+}
+
 void
 DataFile::flush(bool sync)
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 75b0f9e..5adaf3e 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -831,13 +831,27 @@ Metric::Metric(const std::string& dir, PageSize page_size, PageCount page_cnt)
     // restore Header/Data files...
     std::vector<std::string> files;
     get_all_files(dir + "/header.*", files);
-    for (auto file: files) restore_header(file);
+    for (auto file: files)
+    {
+        if (HeaderFile::is_initialized(file))
+            restore_header(file);
+        else
+            rm_file(file);
+    }
     std::sort(m_header_files.begin(), m_header_files.end(), header_less());
 
     files.clear();
     get_all_files(dir + "/data.*", files);
     for (auto file: files) restore_data(file, page_size, page_cnt);
     std::sort(m_data_files.begin(), m_data_files.end(), data_less());
+
+    // died after creating the header file, and before creating its data file?
+    if (m_data_files.size() < m_header_files.size())
+    {
+        std::string tsdb_dir = dir.substr(0, pos);
+        FileIndex id = m_header_files.back()->get_id();
+        m_data_files.push_back(new DataFile(get_data_file_name(tsdb_dir, id), id, page_size, page_cnt));
+    }
 }
 
 Metric::~Metric()
@@ -987,6 +1001,7 @@ Metric::get_last_files(std::string& tsdb_dir, PageCount page_cnt, PageSize page_
         header_file = m_header_files.back();
         header_file->ensure_open(false);
         data_file = m_data_files.back();
+        if (! data_file->is_open(false)) data_file->truncate(header_file->get_used_pages());
         data_file->ensure_open(false);
 
         if (header_file->is_full())
-- 
2.43.0


From 4bcc8f5e14232885173cb5ac2a08ca19f8b77f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:27 +0000
Subject: [PATCH 22/54] fix: purge old days only when nothing in memory refers
 to them

---
 include/ts.h      |  1 +
 src/core/ts.cpp   | 13 +++++++++++++
 src/core/tsdb.cpp | 47 +++++++++++++++++++++++++++++++----------------
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/include/ts.h b/include/ts.h
index fce0044..8652612 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -63,6 +63,7 @@ public:
     void flush(MetricId mid);
     void flush_no_lock(MetricId mid, bool close = false);
     void archive(MetricId mid, Timestamp now_sec, Timestamp threshold_sec);
+    void flush_if_in(MetricId mid, const Tsdb *tsdb);
 
     bool add_data_point(MetricId mid, DataPoint& dp);
     bool add_ooo_data_point(MetricId mid, DataPoint& dp);
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index cbf86f2..41d9b8c 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -528,6 +528,19 @@ TimeSeries::archive(MetricId mid, Timestamp now_sec, Timestamp threshold_sec)
         flush_no_lock(mid, true);
 }
 
+// 'tsdb' is only compared to, never accessed
+void
+TimeSeries::flush_if_in(MetricId mid, const Tsdb *tsdb)
+{
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
+
+    if (((m_buff != nullptr) && (m_buff->get_tsdb() == tsdb)) ||
+        ((m_ooo_buff != nullptr) && (m_ooo_buff->get_tsdb() == tsdb)))
+    {
+        flush_no_lock(mid, true);
+    }
+}
+
 void
 TimeSeries::close_rollup(MetricId mid, const TimeRange& range)
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5adaf3e..d2c6ef4 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2260,6 +2260,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
     {
         PThread_ReadLock guard(&m_tsdb_lock);
         tsdb = Tsdb::search(tstamp);
+        if (tsdb != nullptr)
+            tsdb->inc_ref_count();
     }
 
     if ((tsdb == nullptr) && create)
@@ -2274,10 +2276,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
             Logger::info("Created %T, tstamp = %" PRIu64, tsdb, tstamp);
             ASSERT(Tsdb::search(tstamp) == tsdb);
         }
-    }
-
-    if (tsdb != nullptr)
         tsdb->inc_ref_count();
+    }
 
     return tsdb;
 }
@@ -3436,6 +3436,7 @@ void
 Tsdb::purge_oldest(Timestamp threshold_in_days)
 {
     Tsdb *tsdb = nullptr;
+    bool in_use = false;
 
     {
         PThread_WriteLock guard(&m_tsdb_lock);
@@ -3447,30 +3448,44 @@ Tsdb::purge_oldest(Timestamp threshold_in_days)
             tsdb = m_tsdbs.front();
 
             if (tsdb->is_archived())
-                m_tsdbs.erase(m_tsdbs.begin());
+                in_use = (tsdb->m_ref_count > 0);
             else
             {
                 Logger::info("[rotate] Tsdb %T not archived yet. Purging postponed.", tsdb);
                 tsdb = nullptr;
             }
         }
-    }
 
-    if (tsdb != nullptr)
-    {
-        Logger::info("[rotate] Purging %T permenantly", tsdb);
+        if ((tsdb != nullptr) && ! in_use)
+        {
+            Logger::info("[rotate] Purging %T permenantly", tsdb);
 
-        std::lock_guard<std::mutex> guard(tsdb->m_lock);
-        //WriteLock guard(tsdb->m_lock);
+            // keep the lock until the files are gone, or else they could be
+            // those of a new Tsdb of the same day
+            m_tsdbs.erase(m_tsdbs.begin());
+            tsdb->flush(true);
+            tsdb->unload();
 
-        tsdb->flush(true);
-        tsdb->unload_no_lock();
+            // purge files on disk
+            std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
+            rm_dir2(tsdb_dir);
 
-        // purge files on disk
-        std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
-        rm_dir2(tsdb_dir);
+            delete tsdb;
+        }
+    }
 
-        delete tsdb;
+    if (in_use)
+    {
+        // write out the pages in memory that refer to it; purge it next time
+        Logger::info("[rotate] Tsdb still in use. Purging postponed.");
+        std::vector<Mapping*> mappings;
+        get_all_mappings(mappings);
+
+        for (auto mapping: mappings)
+        {
+            for (TimeSeries *ts = mapping->get_ts_head(); ts != nullptr; ts = ts->m_next)
+                ts->flush_if_in(mapping->get_id(), tsdb);
+        }
     }
 }
 
-- 
2.43.0


From a84bc39f24f0ed7ffa18abe37579bfc3c5045185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:26 +0000
Subject: [PATCH 23/54] fix: close a restored page when newer out-of-order data
 exists

---
 src/core/ts.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 41d9b8c..fa699a1 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -167,6 +167,16 @@ TimeSeries::restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset,
         m_ooo_buff = new PageInMemory(mid, m_id, tsdb, true, file_idx, header_idx);
         out_of_date = m_ooo_buff->restore(tstamp, buff, offset, start, mid, m_id, true);
         ASSERT(! out_of_date);
+
+        // See below
+        if ((m_buff != nullptr) && (m_buff->get_tsdb() == tsdb) && ! m_ooo_buff->is_empty() &&
+            (m_buff->get_last_tstamp(mid, m_id) < m_ooo_buff->get_time_range().get_to() - 1))
+        {
+            m_buff->flush(mid, m_id);
+            m_ooo_buff->update_indices(m_buff);
+            delete m_buff;
+            m_buff = nullptr;
+        }
     }
     else
     {
@@ -181,6 +191,14 @@ TimeSeries::restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset,
             delete m_buff;
             m_buff = nullptr;
         }
+        else if (m_buff->get_last_tstamp(mid, m_id) < tsdb->get_last_tstamp(mid, m_id, true))
+        {
+            // There's out-of-order data newer than anything in this page, in
+            // front of which nothing should be added anymore. Done with it.
+            m_buff->flush(mid, m_id);
+            delete m_buff;
+            m_buff = nullptr;
+        }
     }
 }
 
-- 
2.43.0


From 551cae0e5c794ca024774d5e8f3f68c64516e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:42 +0000
Subject: [PATCH 24/54] fix: keep the compressor precision with each day's data

Changing tsdb.compressor.precision made days written with another
precision decode to wrong values.
---
 include/compress.h    |  9 +++++++--
 include/page.h        |  2 +-
 include/query.h       |  2 +-
 include/tsdb.h        |  2 ++
 src/core/compress.cpp | 10 ++++++----
 src/core/page.cpp     |  7 ++++---
 src/core/query.cpp    |  3 ++-
 src/core/tsdb.cpp     | 10 ++++++++--
 8 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/compress.h b/include/compress.h
index 84b25e7..89ee7cd 100644
--- a/include/compress.h
+++ b/include/compress.h
@@ -97,6 +97,7 @@ public:
     virtual void save(CompressorPosition& position) = 0;    // save last position into 'position'
     virtual void save(uint8_t *base) = 0;   // save compressed data into buffer pointed to by 'base'
     virtual void pad() {}               // only needed by v4
+    virtual void set_precision(int p) {}    // only needed by v3 & v4
     virtual bool recycle() { return true; }
     virtual int append(FILE *file) = 0; // write to append.log, return #bytes written
 
@@ -151,6 +152,7 @@ public:
     void save(CompressorPosition& position) override;
     void save(uint8_t *base) override;
     void pad() override;
+    void set_precision(int p) override { m_precision = power_of_10(p); }
 
     int append(FILE *file) override;    // write to append.log, return #bytes written
 
@@ -213,7 +215,8 @@ private:
     bool m_padded;
     uint8_t m_repeat;
 
-    static double m_precision;
+    double m_precision;
+    static double m_default_precision;
     static short m_repetition;	// number of bits to represent repetition
     static unsigned short m_max_repetition; // 2^m_repetition - 1
 };
@@ -234,6 +237,7 @@ public:
         m_bitset.copy_to(base);
     }
 
+    void set_precision(int p) override { m_precision = power_of_10(p); }
     int append(FILE *file) override;    // write to append.log, return #bytes written
 
     bool compress(Timestamp timestamp, double value);
@@ -290,7 +294,8 @@ private:
     double m_prev_value;
     bool m_is_full;
 
-    static double m_precision;
+    double m_precision;
+    static double m_default_precision;
 };
 
 
diff --git a/include/page.h b/include/page.h
index 5f520d9..0d20154 100644
--- a/include/page.h
+++ b/include/page.h
@@ -245,7 +245,7 @@ public:
     void get_all_data_points(DataPointVector& dps);
 
     // existing compressor, if any, will be destroyed, and new one created
-    void setup_compressor(const TimeRange& range, PageSize page_size, int compressor_version);
+    void setup_compressor(const TimeRange& range, PageSize page_size, int compressor_version, int precision);
 
     void update_indices(PageInMemory *info);
 
diff --git a/include/query.h b/include/query.h
index f8e9fae..9341c93 100644
--- a/include/query.h
+++ b/include/query.h
@@ -387,7 +387,7 @@ public:
     void set_page_index(PageIndex idx) { m_page_index = idx; }
 
     void collect_data(PageInMemory *page);
-    void collect_data(Timestamp from, PageSize page_size, int compressor_version, struct page_info_on_disk *page_header, void *page);
+    void collect_data(Timestamp from, PageSize page_size, int compressor_version, int precision, struct page_info_on_disk *page_header, void *page);
     void collect_data(RollupManager& rollup_mgr, RollupType rollup_type);
 
 private:
diff --git a/include/tsdb.h b/include/tsdb.h
index cca0ef2..2711ecb 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -259,6 +259,7 @@ public:
     inline PageSize get_page_size() const { return m_page_size; }
     inline PageCount get_page_count() const { return m_page_count; }
     inline int get_compressor_version() const { return m_compressor_version; }
+    inline int get_compressor_precision() const { return m_compressor_precision; }
 
     bool is_tstamp_ms() const { return m_tstamp_ms; }
     bool has_daily_rollup();
@@ -439,6 +440,7 @@ private:
     PageSize m_page_size;
     PageCount m_page_count;
     int m_compressor_version;
+    int m_compressor_precision;
     bool m_tstamp_ms;       // timestamp resolution is ms?
 };
 
diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index 0d64eea..f9903b9 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -59,8 +59,8 @@ static uint64_t TRAILING_ZEROS[64] =
 
 short Compressor_v4::m_repetition;
 unsigned short Compressor_v4::m_max_repetition;
-double Compressor_v4::m_precision;
-double Compressor_v3::m_precision;
+double Compressor_v4::m_default_precision;
+double Compressor_v3::m_default_precision;
 double RollupCompressor_v1::m_precision;
 
 
@@ -408,7 +408,7 @@ Compressor_v4::initialize()
             CFG_TSDB_COMPRESSOR_PRECISION, p, CFG_TSDB_COMPRESSOR_PRECISION_DEF);
         p = CFG_TSDB_COMPRESSOR_PRECISION_DEF;
     }
-    m_precision = Compressor::power_of_10(p);
+    m_default_precision = Compressor::power_of_10(p);
 
     // 1 <= m_reppetition <= 7
     m_repetition = 7;
@@ -424,6 +424,7 @@ Compressor_v4::init(Timestamp start, uint8_t *base, size_t size)
 
     m_bitset.init(base, size);
 
+    m_precision = m_default_precision;
     m_dp_count = 0;
     m_prev_tstamp = start;
     m_prev_tstamp_delta = 0L;
@@ -770,7 +771,7 @@ Compressor_v3::initialize()
             CFG_TSDB_COMPRESSOR_PRECISION, p, CFG_TSDB_COMPRESSOR_PRECISION_DEF);
         p = CFG_TSDB_COMPRESSOR_PRECISION_DEF;
     }
-    m_precision = Compressor::power_of_10(p);
+    m_default_precision = Compressor::power_of_10(p);
 }
 
 void
@@ -782,6 +783,7 @@ Compressor_v3::init(Timestamp start, uint8_t *base, size_t size)
 
     m_bitset.init(base, size);
 
+    m_precision = m_default_precision;
     m_dp_count = 0;
     m_prev_delta = 0L;
     m_prev_tstamp = start;
diff --git a/src/core/page.cpp b/src/core/page.cpp
index 8d10143..f8d68f3 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -82,7 +82,7 @@ PageInMemory::in_range_strictly(Timestamp tstamp) const
 /* 'range' should be the time range of the Tsdb.
  */
 void
-PageInMemory::setup_compressor(const TimeRange& range, PageSize page_size, int compressor_version)
+PageInMemory::setup_compressor(const TimeRange& range, PageSize page_size, int compressor_version, int precision)
 {
     if (m_compressor != nullptr)
     {
@@ -97,6 +97,7 @@ PageInMemory::setup_compressor(const TimeRange& range, PageSize page_size, int c
     m_compressor->init(range.get_from(),
                        reinterpret_cast<uint8_t*>(m_page) + compress_info_size,
                        page_size - compress_info_size);
+    m_compressor->set_precision(precision);
 }
 
 void
@@ -227,7 +228,7 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, Page
         actual_size = tsdb->get_page_size();
 
     int compressor_version = is_ooo ? 0 : tsdb->get_compressor_version();
-    setup_compressor(tsdb->get_time_range(), actual_size, compressor_version);
+    setup_compressor(tsdb->get_time_range(), actual_size, compressor_version, tsdb->get_compressor_precision());
 }
 
 // used during restore
@@ -257,7 +258,7 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, File
     m_page = malloc(tsdb->get_page_size());
     PageSize actual_size = tsdb->get_page_size();
     int compressor_version = is_ooo ? 0 : tsdb->get_compressor_version();
-    setup_compressor(tsdb->get_time_range(), actual_size, compressor_version);
+    setup_compressor(tsdb->get_time_range(), actual_size, compressor_version, tsdb->get_compressor_precision());
 }
 
 PageSize
diff --git a/src/core/query.cpp b/src/core/query.cpp
index d631ff1..6641c0b 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1774,7 +1774,7 @@ DataPointContainer::collect_data(PageInMemory *page)
 }
 
 void
-DataPointContainer::collect_data(Timestamp from, PageSize page_size, int compressor_version, struct page_info_on_disk *page_header, void *page)
+DataPointContainer::collect_data(Timestamp from, PageSize page_size, int compressor_version, int precision, struct page_info_on_disk *page_header, void *page)
 {
     ASSERT(page_header != nullptr);
     ASSERT(page != nullptr);
@@ -1791,6 +1791,7 @@ DataPointContainer::collect_data(Timestamp from, PageSize page_size, int compres
     compressor->init(from,
                      reinterpret_cast<uint8_t*>(page) + sizeof(struct compress_info_on_disk),
                      page_size - sizeof(struct compress_info_on_disk));
+    compressor->set_precision(precision);
     compressor->restore(m_dps, position, (uint8_t*)page + sizeof(struct compress_info_on_disk));
     ASSERT(! m_dps.empty());
     MemoryManager::free_recyclable(compressor);
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d2c6ef4..99de2dd 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1119,6 +1119,10 @@ Tsdb::Tsdb(TimeRange& range, bool existing, const char *suffix) :
     m_metrics.reserve(m_mbucket_count);
     m_compressor_version =
         Config::inst()->get_int(CFG_TSDB_COMPRESSOR_VERSION,CFG_TSDB_COMPRESSOR_VERSION_DEF);
+    m_compressor_precision =
+        Config::inst()->get_int(CFG_TSDB_COMPRESSOR_PRECISION,CFG_TSDB_COMPRESSOR_PRECISION_DEF);
+    if ((m_compressor_precision < 0) || (m_compressor_precision > 20))
+        m_compressor_precision = CFG_TSDB_COMPRESSOR_PRECISION_DEF;
     if (range.get_duration_sec() < g_rollup_interval_1h)
     {
         Logger::error("Tsdb range %" PRIu64 " can't be shorter than rollup-interval (1 hour)",
@@ -1290,6 +1294,7 @@ Tsdb::restore_config(const std::string& dir)
     m_page_size = cfg.get_bytes(CFG_TSDB_PAGE_SIZE, CFG_TSDB_PAGE_SIZE_DEF);
     m_page_count = cfg.get_int(CFG_TSDB_PAGE_COUNT, CFG_TSDB_PAGE_COUNT_DEF);
     m_compressor_version = cfg.get_int(CFG_TSDB_COMPRESSOR_VERSION, CFG_TSDB_COMPRESSOR_VERSION_DEF);
+    m_compressor_precision = cfg.get_int(CFG_TSDB_COMPRESSOR_PRECISION, m_compressor_precision);
 
     if (cfg.exists(CFG_TSDB_METRIC_BUCKETS))
     {
@@ -1321,6 +1326,7 @@ Tsdb::write_config(const std::string& dir)
     cfg.set_value(CFG_TSDB_PAGE_SIZE, std::to_string(m_page_size)+"b");
     cfg.set_value(CFG_TSDB_PAGE_COUNT, std::to_string(m_page_count));
     cfg.set_value(CFG_TSDB_COMPRESSOR_VERSION, std::to_string(m_compressor_version));
+    cfg.set_value(CFG_TSDB_COMPRESSOR_PRECISION, std::to_string(m_compressor_precision));
     cfg.set_value(CFG_TSDB_TIMESTAMP_RESOLUTION, m_tstamp_ms?"ms":"sec");
 
     if (m_mbucket_count != UINT32_MAX)
@@ -1694,7 +1700,7 @@ Tsdb::query_for_data(Metric *metric, QueryTask *task)
         container->set_out_of_order(page_header->is_out_of_order());
         container->set_page_index(page_header->get_global_page_index(file_idx, m_page_count));
         //container->collect_data(from, tsdb_header, page_header, page);
-        container->collect_data(from, get_page_size(), get_compressor_version(), page_header, page);
+        container->collect_data(from, get_page_size(), get_compressor_version(), get_compressor_precision(), page_header, page);
         ASSERT(container->size() > 0);
         lock.unlock();
 
@@ -1952,7 +1958,7 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo)
         DataPointContainer *container = (DataPointContainer*)
             MemoryManager::alloc_recyclable(RecyclableType::RT_DATA_POINT_CONTAINER);
         container->set_page_index(page_header->get_global_page_index(file_idx, m_page_count));
-        container->collect_data(m_time_range.get_from(), get_page_size(), get_compressor_version(), page_header, page);
+        container->collect_data(m_time_range.get_from(), get_page_size(), get_compressor_version(), get_compressor_precision(), page_header, page);
         lock.unlock();
         if (! container->is_empty())
             tstamp = container->get_last_data_point().first;
-- 
2.43.0


From 313c8d39acb266f7621f4c4c81b60c3569149ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:42 +0000
Subject: [PATCH 25/54] fix: resize the in-memory page when the next day has
 another page size

A page buffer allocated for a day with a small page size was reused for
a day with a bigger one, and writes ran past its end.
---
 src/core/page.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/page.cpp b/src/core/page.cpp
index f8d68f3..e55062a 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -209,7 +209,16 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, Page
     else
     {
         if (m_tsdb != nullptr)
+        {
+            // page size can be different from one tsdb to another
+            if ((m_page != nullptr) && (m_tsdb->get_page_size() != tsdb->get_page_size()))
+            {
+                std::free(m_page);
+                m_page = nullptr;
+            }
+
             m_tsdb->dec_ref_count();
+        }
 
         m_tsdb = tsdb;
         m_start = from;
-- 
2.43.0


From cb76e50439afa3ceeaecbcc7b9e84c1851c7714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 26/54] fix: read dropResets of a GET rate from its own
 position

---
 src/core/query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 6641c0b..6feed69 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -277,9 +277,9 @@ Query::Query(JsonMap& map, StringBuffer& strbuf) :
                 reset_value = std::stoull(opts[2], &pos, 10);
             }
 
-            if ((opts.size() > 3) && (! opts[2].empty()))
+            if ((opts.size() > 3) && (! opts[3].empty()))
             {
-                drop_resets = ((opts[2].front() == 't') || (opts[2].front() == 'T'));
+                drop_resets = ((opts[3].front() == 't') || (opts[3].front() == 'T'));
             }
 
             m_rate_calculator =
-- 
2.43.0


From 6aaa14739106ce85d89a25c602ead16b473a1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 27/54] fix: answer 413 when a lookup does not fit the response
 buffer

---
 src/core/query.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 6feed69..8914237 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1534,20 +1534,30 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
             if (i++ < index) continue;
             if (l++ >= limit) break;
 
-            n += snprintf(resp_buff+n, size-n, "{\"tsuid\":\"%09X\",\"metric\":\"%s\",\"tags\":{",
-                ts->get_id(), metric);
+            char tsuid[32];
+            snprintf(tsuid, sizeof(tsuid), "%09X", ts->get_id());
+            std::string result = std::string("{\"tsuid\":\"") + tsuid + "\",\"metric\":\"" + metric + "\",\"tags\":{";
 
             Tag *tags = ts->get_tags();
             for (auto tag = tags; tag != nullptr; tag = tag->next())
-                n += snprintf(resp_buff+n, size-n, "\"%s\":\"%s\",", tag->m_key, tag->m_value);
+                result += std::string("\"") + tag->m_key + "\":\"" + tag->m_value + "\",";
 
             if (tags != nullptr)
             {
-                n--;
+                result.pop_back();
                 Tag::free_list(tags, false);
             }
 
-            n += snprintf(resp_buff+n, size-n, "}},");
+            result += "}},";
+
+            if ((n + result.size() + 4) > size)
+            {
+                response.init(413, HttpContentType::PLAIN, 0, nullptr);
+                return false;
+            }
+
+            std::memcpy(resp_buff+n, result.data(), result.size());
+            n += result.size();
         }
 
         // remove last comma
-- 
2.43.0


From 706bb39999c94bc577dd104d96af74de5e0f571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 28/54] fix: end a suggest answer at an element boundary when
 the buffer is full

---
 src/utils/json.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index c740cff..ceff1b3 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -260,22 +260,13 @@ JsonParser::to_json(std::set<std::string>& strs, char *buff, size_t size)
         // remove any double-quote, if any
         std::string s(str);
         s.erase(std::remove(s.begin(), s.end(), '"'), s.end());
+        if ((n + s.size() + 4) > size) break;   // no more room
         n += snprintf(buff+n, size-n, "\"%s\",", s.c_str());
-        if (n >= size) break;
     }
 
     if (n == 1) n++;
-    if (n < size)
-    {
-        buff[n-1] = ']';
-        buff[n] = 0;
-    }
-    else
-    {
-        // Log error?
-        n = size;
-        buff[n-1] = 0;
-    }
+    buff[n-1] = ']';
+    buff[n] = 0;
 
     return n;
 }
-- 
2.43.0


From f8dc3af927713f659eb7c92f785e0bb4c1a6032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 29/54] fix: apply the maximum of a suggest request across
 metrics

---
 src/core/tsdb.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 99de2dd..fa5af32 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2706,6 +2706,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
         for (auto it = g_metric_map.begin(); it != g_metric_map.end(); it++)
         {
             Mapping *mapping = it->second;
+            if (suggestions.size() >= max) break;
             ASSERT(it->first == mapping->m_metric);
 
             //ReadLock mapping_guard(mapping->m_lock);
@@ -2732,6 +2733,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
         for (auto it = g_metric_map.begin(); it != g_metric_map.end(); it++)
         {
             Mapping *mapping = it->second;
+            if (suggestions.size() >= max) break;
             ASSERT(it->first == mapping->m_metric);
 
             //ReadLock mapping_guard(mapping->m_lock);
-- 
2.43.0


From 9a4392aece1a3364230567b7957a91881131f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 30/54] fix: convert calendar times of a query with the rules
 of the time zone

---
 include/utils.h     |  1 -
 src/utils/utils.cpp | 56 ++++++++++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index ba651be..bf6223d 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -85,7 +85,6 @@ extern Timestamp to_sec(Timestamp tstamp);
 extern Timestamp to_us(Timestamp tstamp);
 extern Timestamp parse_ts(const JsonValue *value, Timestamp now, const char *tz);
 extern bool is_timestamp(std::string& str);
-extern long get_tz_diff(const char *tz);
 extern TimeUnit to_time_unit(const char *str, size_t len);
 extern Timestamp convert_time(Timestamp time, TimeUnit from_unit, TimeUnit to_unit);
 extern uint64_t get_bytes_factor(const std::string& str);
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 2aaa8a1..30bf34c 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -401,6 +401,36 @@ to_sec(Timestamp tstamp)
     return tstamp;
 }
 
+// interpret 'tm' as local time in the given timezone
+static time_t
+timelocal_tz(struct tm *tm, const char *tz)
+{
+    static std::mutex s_tz_lock;
+    std::lock_guard<std::mutex> guard(s_tz_lock);
+
+    const char *env = ::getenv("TZ");
+    std::string saved(env == nullptr ? "" : env);
+
+    // in TZ, UTC+1 is west of UTC; here it is one hour ahead of UTC
+    std::string zone(tz);
+    std::size_t sign = zone.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz");
+    if ((sign != std::string::npos) && (zone[sign] == '+' || zone[sign] == '-'))
+        zone[sign] = (zone[sign] == '+') ? '-' : '+';
+
+    setenv("TZ", zone.c_str(), 1);
+    tzset();
+    tm->tm_isdst = -1;
+    time_t ts = mktime(tm);
+
+    if (env == nullptr)
+        unsetenv("TZ");
+    else
+        setenv("TZ", saved.c_str(), 1);
+    tzset();
+
+    return ts;
+}
+
 // 'value' should be either an absolute time (e.g. 1633418206),
 // a relative time (e.g. 2h-ago), or an absolute formatted time
 // (e.g. 2024/01/23-05:10:22)
@@ -456,18 +486,13 @@ parse_ts(const JsonValue *value, Timestamp now, const char *tz)
             ::strptime(str, "%Y/%m/%d", &tm);
         }
 
-        // set timezone
-        long tzdiff = 0;    // in seconds
-
-        if (strcmp(tz, CFG_TSDB_TIMEZONE_DEF) != 0)
-            tzdiff = get_tz_diff(tz);
-
-        ts = timegm(&tm);
+        if (strcmp(tz, CFG_TSDB_TIMEZONE_DEF) == 0)
+            ts = timegm(&tm);
+        else
+            ts = timelocal_tz(&tm, tz);
 
         if (g_tstamp_resolution_ms)
-            ts -= tzdiff * 1000;
-        else
-            ts -= tzdiff;
+            ts *= 1000;
     }
 
     return ts;
@@ -479,17 +504,6 @@ is_timestamp(std::string& str)
     return !str.empty() && (str.find_first_not_of("0123456789") == std::string::npos);
 }
 
-long
-get_tz_diff(const char *tz)
-{
-    static std::mutex s_tz_lock;
-    std::lock_guard<std::mutex> guard(s_tz_lock);
-
-    setenv("TZ", tz, 1);
-    tzset();
-    return timezone;
-}
-
 // 'str' should look something like: "2h"
 TimeUnit
 to_time_unit(const char *str, size_t len)
-- 
2.43.0


From c99c854fc6124b97ba74907816f9dd157171ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 31/54] fix: restore a series without tags as a series without
 tags

---
 src/utils/kv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index fb5fa4a..ebb8ad4 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -377,6 +377,8 @@ KeyValuePair::parse_multiple(std::string& buff)
 
     for (std::string token: tokens)
     {
+        if (token.empty()) continue;    // ";" stands for no tags at all
+
         std::tuple<std::string,std::string> pair;
         tokenize(token, pair, '=');
 
-- 
2.43.0


From f6327d9fce955f5cd3380300ace782ac41750e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 32/54] fix: parse JSON and put points within their own bounds

---
 src/core/dp.cpp   | 100 +++++++++++++++++++++++++++++++---------------
 src/core/tsdb.cpp |   9 +++--
 2 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index d9ea571..e9414a7 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -114,10 +114,13 @@ DataPoint::from_http(char *http)
 char *
 DataPoint::from_json(char* json)
 {
+    bool has_tstamp = false, has_value = false;
+
     if (json == nullptr) return nullptr;
-    while (*json != '{') json++;
+    while (std::isspace(*json)) json++;
+    if (*json != '{') return nullptr;
 
-    for (json++; *json != '}' && *json != 0; )
+    for (json++; *json != '}'; )
     {
         char *key;
         json = next_word(json, key);
@@ -133,18 +136,23 @@ DataPoint::from_json(char* json)
         }
         else if (strcmp(key, "tags") == 0)
         {
-            while ((*json != '{') && (*json != 0)) json++;
+            while (std::isspace(*json) || (*json == ':')) json++;
+            if (*json != '{') return nullptr;
             json = next_tags(json);
             if (json == nullptr) return nullptr;
         }
         else if (strcmp(key, "timestamp") == 0)
         {
             json = next_long(json, m_timestamp);
+            if (json == nullptr) return nullptr;
+            has_tstamp = true;
             //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
         }
         else if (strcmp(key, "value") == 0)
         {
             json = next_double(json, m_value);
+            if (json == nullptr) return nullptr;
+            has_value = true;
         }
         else
         {
@@ -152,8 +160,15 @@ DataPoint::from_json(char* json)
         }
 
         while (isspace(*json)) json++;
+        if (*json == ',')
+            for (json++; std::isspace(*json); json++) /* do nothing */;
+        else if (*json != '}')
+            return nullptr;
     }
 
+    // incomplete data point?
+    if ((m_metric == nullptr) || !has_tstamp || !has_value) return nullptr;
+
     return json + 1;
 }
 
@@ -166,6 +181,8 @@ DataPoint::from_json(char* json)
 bool
 DataPoint::from_plain(char* &text)
 {
+    char *end;
+
     m_metric = text;
     if (UNLIKELY(*text == '"'))
     {
@@ -173,20 +190,28 @@ DataPoint::from_plain(char* &text)
         do
         {
             if (*++text == ' ') *text = '_';
-        } while ((*text != '"') && (*text != '\n'));
+        } while ((*text != '"') && (*text != '\n') && (*text != 0));
+        if (*text != '"') return false;
         *text++ = 0;
     }
     else
-        text = (char*)rawmemchr((void*)text, ' ');
+        while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+    if ((*text != ' ') || (*m_metric == 0) || (*m_metric == ' ')) return false;
     *text++ = 0;
-    m_timestamp = (Timestamp)std::atoll(text);
+    if (! std::isdigit(*text)) return false;
+    m_timestamp = (Timestamp)std::strtoll(text, &end, 10);
     //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
-    text = (char*)rawmemchr((void*)text, ' ');
-    text++;
+    if (*end != ' ') return false;
+    text = end + 1;
+    if (*text == '"') text++;
+    if (std::isspace(*text)) return false;
+    m_value = std::strtod(text, &end);
+    if (end == text) return false;
+    text = end;
     if (*text == '"') text++;
-    m_value = std::atof(text);
-    while ((*text != ' ') && (*text != '\n')) text++;
+    if (*text == '\r') text++;
     if (*text == '\n') { text++; return true; }
+    if (*text != ' ') return false;
     m_raw_tags = ++text;
     // Converting <tag1>=<val1> <tag2=<val2> ... into
     // <tag1>=<val1>,<tag2>=<val2>,..., to match the InfluxDB line protocol
@@ -195,16 +220,17 @@ DataPoint::from_plain(char* &text)
         if (*text == ' ') *text = ',';
         text++;
     }
-    *text++ = 0;
-    if (UNLIKELY(*(text-2) == '\r')) *(text-2) = 0;
+    if (UNLIKELY(*(text-1) == '\r')) *(text-1) = 0;
+    if (*text != 0) *text++ = 0;
     return true;
 }
 
 char *
 DataPoint::next_word(char* json, char* &word)
 {
-    char *curr = strchr(json, '"');
-    if (curr == nullptr) return nullptr;
+    char *curr;
+    for (curr = json; std::isspace(*curr) || (*curr == ':'); curr++) /* do nothing */;
+    if (*curr != '"') return nullptr;
     curr++;
     word = curr;
     curr = strchr(curr, '"');
@@ -237,19 +263,24 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
     else if (std::isdigit(*curr))
     {
         value = curr;
-        double dbl;
-        curr = next_double(curr, dbl);
+        while (std::isdigit(*curr) || (*curr == '.') || (*curr == 'e') || (*curr == 'E') || (*curr == '+') || (*curr == '-')) curr++;
+        char *end = curr;
+        while (std::isspace(*curr)) curr++;
+        if ((*curr != ',') && (*curr != '}')) return nullptr;
         if (*curr == '}') quote = true;
-        *curr = 0;
+        *end = 0;
         return curr+1;
     }
     else    // boolean
     {
         value = curr;
         for (curr; std::isalpha(*curr); curr++) /* do nothing */;
+        char *end = curr;
+        while (std::isspace(*curr)) curr++;
+        if ((*curr != ',') && (*curr != '}')) return nullptr;
         if (*curr == '}') quote = true;
-        *curr = 0;
-        for (curr++; std::isspace(*curr); curr++) /* do nothing */;
+        *end = 0;
+        curr++;
         return (std::strcmp(value, "true") == 0 || std::strcmp(value, "false") == 0) ? curr : nullptr;
     }
 }
@@ -257,10 +288,13 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
 char *
 DataPoint::next_long(char* json, Timestamp &number)
 {
-    while (! std::isdigit(*json) && (*json != 0) && (*json != '\n')) json++;
+    while (std::isspace(*json) || (*json == ':') || (*json == '"')) json++;
+    if (! std::isdigit(*json)) return nullptr;
     number = (Timestamp)std::atoll(json);
     //number = (g_tstamp_resolution_ms ? to_ms(number) : to_sec(number));
     while (std::isdigit(*json)) json++;
+    if (*json == '.')
+        for (json++; std::isdigit(*json); json++) /* do nothing */;
     if (*json == '"') json++;   // in case the number is quoted
     return json;
 }
@@ -268,14 +302,13 @@ DataPoint::next_long(char* json, Timestamp &number)
 char *
 DataPoint::next_double(char* json, double &number)
 {
-    //while (! std::isdigit(*json) && (*json != '.') && (*json != '+') && (*json != '-') && (*json != '\n')) json++;
-    while ((*json != ':') && (*json != '\n')) json++;
-    if (*json == ':') json++;
-    while ((*json == '"') || std::isspace(*json)) json++;
-    number = std::atof(json);
-    //while (std::isdigit(*json) || (*json == '.') || (*json == '+') || (*json == '-') || (*json == 'e') || (*json == 'n') || (*json == 'a') || (*json == 'N') || (*json == 'A')) json++;
-    while ((*json != ',') && (*json != '}')) json++;
-    //if (*json == '"') json++;   // in case the number is quoted
+    char *end;
+
+    while (std::isspace(*json) || (*json == ':') || (*json == '"')) json++;
+    number = std::strtod(json, &end);
+    if (end == json) return nullptr;
+    json = end;
+    if (*json == '"') json++;   // in case the number is quoted
     return json;
 }
 
@@ -284,7 +317,9 @@ DataPoint::next_tags(char* json)
 {
     bool quote = false;
 
-    for (json++; (*json != '}') && (*json != 0); )
+    for (json++; std::isspace(*json); json++) /* do nothing */;
+
+    while (*json != '}')
     {
         char *name, *value;
         json = next_word(json, name);
@@ -296,12 +331,11 @@ DataPoint::next_tags(char* json)
         ASSERT(value != nullptr);
         ASSERT(*value != ':');
         add_tag(name, value);
-        while (std::isspace(*json)) json++;
+        if (quote) return json;     // '}' is behind us already
+        while (std::isspace(*json) || (*json == ',')) json++;
     }
 
-    if ((*json == '}') && !quote) json++;
-
-    return json;
+    return json + 1;
 }
 
 // Return true if there are more tags; false if this is the last tag;
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index fa5af32..6837f80 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2406,17 +2406,20 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
     else
     {
         // multiple data point
+        if (*curr == '[')
+            for (curr++; std::isspace(*curr); curr++) /* do nothing */;
+
         while ((*curr != ']') && (*curr != 0))
         {
             DataPoint dp;
-            curr = dp.from_json(curr+1);
-            if (curr == nullptr) break;
+            curr = dp.from_json(curr);
+            if (curr == nullptr) { failed++; break; }
 
             if (add_data_point(dp, false))
                 success++;
             else
                 failed++;
-            while (isspace(*curr)) curr++;
+            while (isspace(*curr) || (*curr == ',')) curr++;
         }
     }
 
-- 
2.43.0


From e1b10954ef833a92b02c3c70ad7985802ad0ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 33/54] fix: parse line protocol within the line and refuse
 what is no number

---
 src/core/tsdb.cpp | 179 ++++++++++++++++++++--------------------------
 1 file changed, 77 insertions(+), 102 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6837f80..cbaaf69 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2770,6 +2770,59 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
     return true;
 }
 
+// replace a back-slash and the character it escapes; 'line' will be after them
+static void
+escape(char* &line)
+{
+    *line++ = '_';
+    switch (*line)
+    {
+        case ',':   *line++ = 'C'; break;
+        case '=':   *line++ = 'E'; break;
+        case ' ':   *line++ = 'S'; break;
+        case '\n':
+        case 0:     break;      // end of line can't be escaped
+        default:    *line++ = '_'; break;
+    }
+}
+
+// parse the value of a field; 'line' will be after it
+static bool
+parse_field_value(char* &line, DataPoint& dp)
+{
+    char *end;
+
+    // the next one has to be a number
+    if ((!std::isdigit(*line)) && (*line != '+') && (*line != '-') && (*line != '.') &&
+        (std::strncmp(line, "inf", 3) != 0) && (std::strncmp(line, "nan", 3) != 0))
+        return false;
+
+    dp.set_value(std::strtod(line, &end));
+    if (end == line) return false;
+    line = end;
+    if ((*line == 'i') || (*line == 'u')) line++;   // integer
+    return (*line == ',') || (*line == ' ') || (*line == '\r') || (*line == '\n') || (*line == 0);
+}
+
+// parse the optional timestamp, and the end of the line; 'line' will be at the next line
+static bool
+parse_line_tstamp(char* &line, Timestamp& ts)
+{
+    while (*line == ' ') line++;
+
+    if (std::isdigit(*line))
+    {
+        // convert ts to desired unit
+        ts = validate_resolution((Timestamp)std::strtoll(line, &line, 10));
+        while (*line == ' ') line++;
+    }
+
+    if (*line == '\r') line++;
+    if (*line == '\n') line++;
+    else if (*line != 0) return false;
+    return true;
+}
+
 /* @param line Format: <measurement>[,<tag1>=<val1>,<tag2>=<val2>,...] <field1>=<val1>[,<field2>=<val2>,...] <timestamp>
  */
 bool
@@ -2782,17 +2835,9 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
     {
         if (*line == '\\')
         {
-            *line++ = '_';
-            switch (*line)
-            {
-                case ',':   *line = 'C'; break;
-                case '=':   *line = 'E'; break;
-                case ' ':   *line = 'S'; break;
-                default:    *line = '_'; break;
-            }
-            line++;
+            escape(line);
         }
-        else if ((*line == ',') || (*line == ' '))
+        else if ((*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
             break;
         else
             line++;
@@ -2807,23 +2852,18 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
         {
             if (*line == '\\')
             {
-                *line++ = '_';
-                switch (*line)
-                {
-                    case ',':   *line = 'C'; break;
-                    case '=':   *line = 'E'; break;
-                    case ' ':   *line = 'S'; break;
-                    default:    *line = '_'; break;
-                }
-                line++;
+                escape(line);
             }
-            else if (*line == ' ')
+            else if ((*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
     }
 
+    if (*line != ' ')
+        return false;
+
     *line = 0;
 
     // ' <field_key>=<field_value>[,<field_key>=<field_value>] [<timestamp>]'
@@ -2839,43 +2879,24 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
         {
             if (*line == '\\')
             {
-                *line++ = '_';
-                switch (*line)
-                {
-                    case ',':   *line = 'C'; break;
-                    case '=':   *line = 'E'; break;
-                    case ' ':   *line = 'S'; break;
-                    default:    *line = '_'; break;
-                }
-                line++;
+                escape(line);
             }
-            else if (*line == '=')
+            else if ((*line == '=') || (*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
+
+        if ((*line != '=') || (line == field))
+            return false;
+
         *line++ = 0;  // end of field name
         dp.set_raw_tags(field);    // use raw_tags to remember field name
-        dp.set_value(std::atof(line));
-
-        while ((*line != ',' || *line == '\\') && (*line != ' ' || *(line-1) == '\\') && (*line != '\n') && (*line != 0))
-            line++;
+        if (! parse_field_value(line, dp))
+            return false;
     } while (*line == ',');
 
-    if (*line == ' ') line++;
-    if (*line == '\n')
-        line++;
-    else if (*line != 0)
-    {
-        ts = std::atoll(line);
-        while (*line != '\n' && *line != 0) line++;
-        if (*line == '\n') line++;
-
-        // convert ts to desired unit
-        ts = validate_resolution(ts);
-    }
-
-    return true;
+    return parse_line_tstamp(line, ts);
 }
 
 /* @param line Format: <measurement>[,<tag1>=<val1>,<tag2>=<val2>,...] <field1>=<val1>[,<field2>=<val2>,...] <timestamp>
@@ -2895,15 +2916,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
     {
         if (*line == '\\')
         {
-            *line++ = '_';
-            switch (*line)
-            {
-                case ',':   *line = 'C'; break;
-                case '=':   *line = 'E'; break;
-                case ' ':   *line = 'S'; break;
-                default:    *line = '_'; break;
-            }
-            line++;
+            escape(line);
         }
         else if ((*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
             break;
@@ -2924,15 +2937,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
         {
             if (*line == '\\')
             {
-                *line++ = '_';
-                switch (*line)
-                {
-                    case ',':   *line = 'C'; break;
-                    case '=':   *line = 'E'; break;
-                    case ' ':   *line = 'S'; break;
-                    default:    *line = '_'; break;
-                }
-                line++;
+                escape(line);
             }
             else if ((*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
@@ -2959,55 +2964,25 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
         {
             if (*line == '\\')
             {
-                *line++ = '_';
-                switch (*line)
-                {
-                    case ',':   *line = 'C'; break;
-                    case '=':   *line = 'E'; break;
-                    case ' ':   *line = 'S'; break;
-                    default:    *line = '_'; break;
-                }
-                line++;
+                escape(line);
             }
-            else if ((*line == '=') || (*line == '\n') || (*line == 0))
+            else if ((*line == '=') || (*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
 
-        if (*line != '=')
+        if ((*line != '=') || (line == field))
             return false;
 
         *line++ = 0;  // end of field name
 
-        // the next one has to be a number
-        if ((!std::isdigit(*line)) && (*line != '+') && (*line != '-') && (*line != '.') &&
-            !((std::strlen(line) >= 3) && (std::strncmp(line, "inf", 3) == 0 || std::strncmp(line, "nan", 3) == 0)))
-            return false;
-
         dp.set_raw_tags(field);    // use raw_tags to remember field name
-        dp.set_value(std::atof(line));
-
-        while ((*line != ',' || *line == '\\') && (*line != ' ' || *(line-1) == '\\') && (*line != '\n') && (*line != 0))
-            line++;
-    } while (*line == ',');
-
-    if (*line == ' ') line++;
-    if (*line == '\n')
-        line++;
-    else if (*line != 0)
-    {
-        if (! std::isdigit(*line))
+        if (! parse_field_value(line, dp))
             return false;
-        ts = std::atoll(line);
-        while (*line != '\n' && *line != 0) line++;
-        if (*line == '\n') line++;
-
-        // convert ts to desired unit
-        ts = validate_resolution(ts);
-    }
+    } while (*line == ',');
 
-    return true;
+    return parse_line_tstamp(line, ts);
 }
 
 void
-- 
2.43.0


From 2aad0d6eeb053b84d17c5896712c0599107c9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 34/54] fix: comments and checkpoints anywhere in a line
 protocol body

---
 src/core/tsdb.cpp | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index cbaaf69..d112377 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2558,39 +2558,36 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
     curr[request.length+3] = '\n';
     curr[request.length+4] = '0';
 
-    // parse 1st line with more checks
-    while (*curr == '#')
-    {
-        while ((*(++curr) != '\n') && (*curr != 0))
-            curr++;
-        if (*curr == 0)
-            break;
-        curr++;
-    }
-
-    if (*curr == 0)
-        success = false;
-
     const char *measurement = nullptr;
     char *tags = nullptr;
     Timestamp ts = 0;
+    bool has_cp = false;
 
-    // handle special case: "_cp ..."
-    if (UNLIKELY((curr[0] == '_') && (std::strncmp(curr, "_cp ", 4) == 0)))
+    // skip comments, and handle special case: "_cp ..."
+    while ((*curr == '#') || (UNLIKELY(curr[0] == '_') && (std::strncmp(curr, "_cp ", 4) == 0)))
     {
-        curr += 4;
-        char *cp = curr;
-        curr = strchr(curr, '\n');
-        if (curr != nullptr)
-        {
-            *curr = 0;
+        char *line = curr;
+
+        while ((*curr != '\n') && (*curr != 0))
             curr++;
-            CheckPointManager::add(cp);
+        if (*curr == 0)
+        {
+            success = (*line == '#');
+            break;
+        }
+        *curr++ = 0;
+
+        if (*line != '#')
+        {
+            CheckPointManager::add(line+4);
+            has_cp = true;
         }
-        else
-            success = false;
     }
 
+    if ((*curr == 0) && !has_cp)
+        success = false;
+
+    // parse 1st line with more checks
     if (*curr != 0 && *curr != '\n')
         success = success && parse_line_safe(curr, measurement, tags, ts, dps);
 
@@ -2605,6 +2602,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
         if (UNLIKELY(*curr == '#'))
         {
             curr = strchr(curr, '\n');
+            if (curr == nullptr) break;
             curr++;
             continue;
         }
@@ -2624,8 +2622,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
             else
                 success = false;
 
-            if (curr == nullptr || *curr == 0)
-                break;
+            continue;
         }
         else if (UNLIKELY(curr[0] == 0 || curr[0] == '\n' || curr[0] == '\r'))
         {
-- 
2.43.0


From 23d12075e9c226dc11e9733a1237dce238476bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:06 +0000
Subject: [PATCH 35/54] fix: leave room for terminators after an uncompressed
 body

---
 src/core/http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index c68e393..5b3d801 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -824,7 +824,7 @@ HttpServer::process_request(HttpRequest& request, HttpResponse& response)
             if (request.encoding != 0)
             {
                 buff = MemoryManager::alloc_network_buffer();
-                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size()))
+                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size()-8))
                     throw std::runtime_error("failed to uncompress content");
                 Logger::http("%s", 0, request.content);
             }
-- 
2.43.0


From f281d099a82d72cd9ac398b0db8cdcb0b37a1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:59 +0000
Subject: [PATCH 36/54] fix: undo a partly parsed header before more of it
 arrives

The terminators written by the header parser were taken back only after
more bytes had been received. By then the first one could be missing and
a byte of the body was overwritten instead. Compressed requests cut
inside their header were refused.
---
 src/core/http.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 5b3d801..55c403c 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -401,6 +401,11 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
     bool conn_error = conn->request.close;
     bool free_buff = true;
 
+    // undo before more data arrives, while the terminators
+    // written by the last parse_header() are still in place
+    if (! conn->request.header_ok)
+        undo_header(conn->request);
+
     while (len < buff_size)
     {
         // the MSG_DONTWAIT is not really needed, since
@@ -463,7 +468,6 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
 
         if (! conn->request.header_ok)
         {
-            undo_header(conn->request);
             Logger::http("Re-parse request: %s", fd, buff);
             parse_header(buff, len, conn->request);
         }
@@ -730,7 +734,6 @@ HttpServer::parse_header(char *buff, int len, HttpRequest& request)
             curr1 = strchr(curr1, '\r');
             if (curr1 == nullptr) { request.id = nullptr; return false; }   // bad request
             *curr1 = 0;
-            if ((curr1 - request.id) > MAX_ID_SIZE) request.id[MAX_ID_SIZE] = 0;
             curr1++;
         }
 
@@ -745,6 +748,9 @@ HttpServer::parse_header(char *buff, int len, HttpRequest& request)
     // parse body
     if (request.header_ok)
     {
+        if ((request.id != nullptr) && (std::strlen(request.id) > MAX_ID_SIZE))
+            request.id[MAX_ID_SIZE] = 0;
+
         if (request.length > 0)
         {
             request.content = curr1;
-- 
2.43.0


From 157dddebd9a300266cd195663847b071ac3f24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:59 +0000
Subject: [PATCH 37/54] fix: answer queries on series with long names

A tag name or value longer than about 300 characters made every query of
its metric fail.
---
 include/strbuf.h     | 3 ++-
 src/utils/strbuf.cpp | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/strbuf.h b/include/strbuf.h
index f430ba2..3ceb0cb 100644
--- a/include/strbuf.h
+++ b/include/strbuf.h
@@ -26,7 +26,7 @@ namespace tt
 
 
 /* Recyclable buffer for strings. NOT thread-safe.
- * Can't handle string longer than 325 (size of the small network buffer).
+ * Strings longer than the small network buffer are allocated separately.
  */
 class StringBuffer
 {
@@ -39,6 +39,7 @@ public:
 private:
     int m_cursor;
     std::vector<char*> m_buffs;
+    std::vector<char*> m_longs;     // strings that don't fit into a buffer
 };
 
 
diff --git a/src/utils/strbuf.cpp b/src/utils/strbuf.cpp
index 80e0ca7..68b82f0 100644
--- a/src/utils/strbuf.cpp
+++ b/src/utils/strbuf.cpp
@@ -37,6 +37,8 @@ StringBuffer::~StringBuffer()
 {
     for (char *buff: m_buffs)
         MemoryManager::free_network_buffer_small(buff);
+    for (char *str: m_longs)
+        std::free(str);
 }
 
 char *
@@ -45,14 +47,13 @@ StringBuffer::strdup(const char *str)
     size_t buff_size = MemoryManager::get_network_buffer_small_size() - 1;
 
     ASSERT(str != nullptr);
-    ASSERT(std::strlen(str) < buff_size);
 
     size_t len = std::strlen(str);
 
-    if (UNLIKELY(len > buff_size))
+    if (UNLIKELY(len >= buff_size))
     {
-        Logger::error("Can't fit str into StringBuffer: '%s'", str);
-        throw std::out_of_range("string too long to fit into StringBuffer");
+        m_longs.push_back(::strdup(str));
+        return m_longs.back();
     }
 
     if ((m_cursor + len) >= buff_size)
-- 
2.43.0


From a22c47d0fa09d2ce06a604c2b51a4acaf186c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:59 +0000
Subject: [PATCH 38/54] fix: never leave out data from a query answer without
 an error

Tags longer than a fixed buffer were cut off, which made the answer
invalid, and points were left out of an answer that almost filled the
network buffer. Such answers now get status 413.
---
 src/core/query.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 8914237..9c015c7 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1737,16 +1737,18 @@ QueryResults::to_json_aggregate_tags(char *buff, int size) const
 int
 QueryResults::to_json(char *buff, int size) const
 {
-    char buf1[1024];    // TODO: no magic numbers
-    char buf2[1024];    // TODO: no magic numbers
-
-    int n = snprintf(buff, size, "{\"metric\":\"%s\",%s,%s,\"dps\":{",
-        m_metric, to_json_tags(buf1, sizeof(buf1)),
-        to_json_aggregate_tags(buf2, sizeof(buf2)));
+    int n = snprintf(buff, size, "{\"metric\":\"%s\",", m_metric);
+    if ((n+16) >= size) return size;
+    n += std::strlen(to_json_tags(buff+n, size-n));
+    if ((n+24) >= size) return size;
+    n += snprintf(buff+n, size-n, ",");
+    n += std::strlen(to_json_aggregate_tags(buff+n, size-n));
+    if ((n+16) >= size) return size;
+    n += snprintf(buff+n, size-n, ",\"dps\":{");
 
     for (const DataPointPair& dp: m_dps)
     {
-        if ((n+8) >= size) break;
+        if ((n+8) >= size) return size;
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
-- 
2.43.0


From 481b68f43e073c093aa8f12a13f7c99515841f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:59 +0000
Subject: [PATCH 39/54] fix: refuse points whose names cannot be stored

Names with white space, tags without a value or with separators in them,
empty names and tags longer than the limit were accepted. Some ended up
under other names, some were lost by a restart, and long tags that
differ only at the end became one series.
---
 include/tag.h     |  5 +++++
 src/core/tsdb.cpp | 35 +++++++++++++++++++++++------------
 src/utils/tag.cpp | 28 +++++++++++++++++++++++++++-
 3 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/include/tag.h b/include/tag.h
index 4b0a5f4..1ff0e4b 100644
--- a/include/tag.h
+++ b/include/tag.h
@@ -84,8 +84,13 @@ public:
 
     bool less_than(const TagOwner& other) const;
 
+    // return nullptr if they do not fit
     char *get_ordered_tags(char* buff, size_t size) const;
 
+    // tags that can be written to, and restored from, the meta file
+    bool has_valid_tags() const;
+    static bool is_valid_name(const char *name, const char *reserved);
+
     void get_keys(std::set<std::string>& keys) const;
     void get_values(std::set<std::string>& values) const;
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d112377..26d3ffb 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -428,13 +428,17 @@ Mapping::get_ts(DataPoint& dp)
 
         if (raw_tags != nullptr)
         {
-            std::strncpy(raw_tags_copy, raw_tags, MAX_TOTAL_TAG_LENGTH);
-            raw_tags_copy[MAX_TOTAL_TAG_LENGTH-1] = 0;
+            if (UNLIKELY(std::strlen(raw_tags) >= MAX_TOTAL_TAG_LENGTH))
+                return nullptr;
+            std::strcpy(raw_tags_copy, raw_tags);
 
             if (UNLIKELY(! dp.parse_raw_tags()))
                 return nullptr;
         }
 
+        if (UNLIKELY(! dp.has_valid_tags()))
+            return nullptr;
+
         Tag *field = dp.remove_tag(TT_FIELD_TAG_NAME, false);
 
         if (field != nullptr)
@@ -447,7 +451,8 @@ Mapping::get_ts(DataPoint& dp)
         }
 
         char buff[MAX_TOTAL_TAG_LENGTH];
-        dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+        if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+            return nullptr;
 
         PThread_WriteLock guard(&m_lock);
 
@@ -492,12 +497,13 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
     dps.back().set_raw_tags((char*)field->m_value);
     char buff[MAX_TOTAL_TAG_LENGTH];
-    dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+    if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+        return nullptr;
     Measurement *mm = get_measurement(buff, dp, dp.get_metric(), dps);
-    ASSERT(mm != nullptr);
+    if (UNLIKELY(mm == nullptr))
+        return nullptr;
 
-    if (mm != nullptr)
-        ts = mm->get_ts(0, field->m_value);
+    ts = mm->get_ts(0, field->m_value);
 
     if (ts == nullptr)
         ts = mm->add_ts(field->m_value, this);
@@ -528,11 +534,13 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
     if (UNLIKELY(bt == nullptr))
     {
         char ordered[MAX_TOTAL_TAG_LENGTH];
-        char original[MAX_TOTAL_TAG_LENGTH+1];
+        char original[MAX_TOTAL_TAG_LENGTH];
 
-        std::strncpy(original, raw_tags, MAX_TOTAL_TAG_LENGTH);
+        if (UNLIKELY(std::strlen(raw_tags) >= MAX_TOTAL_TAG_LENGTH))
+            return nullptr;
+        std::strcpy(original, raw_tags);
 
-        if (raw_tags[1] == 0)   // no tags
+        if ((raw_tags[0] == ';') && (raw_tags[1] == 0))     // no tags
         {
             ordered[0] = raw_tags[0];
             ordered[1] = 0;
@@ -542,10 +550,11 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
             // parse raw tags...
             if (owner.get_tags() == nullptr)
             {
-                if (! owner.parse(raw_tags))
+                if (! owner.parse(raw_tags) || (! dps.empty() && ! owner.has_valid_tags()))
                     return nullptr;
             }
-            owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH);
+            if (owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH) == nullptr)
+                return nullptr;
         }
 
         PThread_WriteLock guard(&m_lock);
@@ -1477,6 +1486,8 @@ Tsdb::get_or_add_mapping(const char *metric)
 
         if (result1 == g_metric_map.end())
         {
+            if (UNLIKELY(! TagOwner::is_valid_name(metric, "")))
+                return nullptr;
             mapping = new Mapping(metric);
             g_metric_map[mapping->m_metric] = mapping;
         }
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 1974aff..2b78b2e 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -156,6 +156,32 @@ TagOwner::less_than(const TagOwner& other) const
     return false;
 }
 
+bool
+TagOwner::is_valid_name(const char *name, const char *reserved)
+{
+    if (*name == 0) return false;
+
+    for ( ; *name != 0; name++)
+    {
+        if (((unsigned char)*name <= ' ') || (std::strchr(reserved, *name) != nullptr))
+            return false;
+    }
+
+    return true;
+}
+
+bool
+TagOwner::has_valid_tags() const
+{
+    for (Tag *tag = m_tags; tag != nullptr; tag = tag->next())
+    {
+        if (! is_valid_name(tag->m_key, ",;=") || ! is_valid_name(tag->m_value, ",;"))
+            return false;
+    }
+
+    return true;
+}
+
 char *
 TagOwner::get_ordered_tags(char *buff, size_t size) const
 {
@@ -171,7 +197,7 @@ TagOwner::get_ordered_tags(char *buff, size_t size) const
             continue;
         ASSERT(strcmp(tag->m_key, METRIC_TAG_NAME) != 0);
         n = std::snprintf(curr, size, "%s=%s,", tag->m_key, tag->m_value);
-        if (size <= n) break;
+        if (size <= n) return nullptr;
         size -= n;
         curr += n;
     }
-- 
2.43.0


From 9219accd9e5c62cd770ba6899f201957f05c1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:13 +0000
Subject: [PATCH 40/54] fix: bounds, depth and types of JSON in queries

---
 include/json.h     |  23 ++--
 src/utils/json.cpp | 257 +++++++++++++++++++++++++--------------------
 2 files changed, 161 insertions(+), 119 deletions(-)

diff --git a/include/json.h b/include/json.h
index 7b0d6fd..9c1fde9 100644
--- a/include/json.h
+++ b/include/json.h
@@ -54,8 +54,12 @@ public:
 
 private:
     JsonParser() = delete;
-    static char* parse_key_value(char *json, std::pair<const char*,JsonValue*>& kv, char delim = ':');
-    static char* parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue*>& kv, char delim = ':');
+    static char* parse_map(char *json, JsonMap& map, char delim, int depth);
+    static char* parse_array(char *json, JsonArray& array, int depth);
+    static char* parse_map_unquoted(char *json, JsonMap& map, char delim, int depth);
+    static char* parse_key_value(char *json, std::pair<const char*,JsonValue*>& kv, char delim, int depth);
+    static char* parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue*>& kv, char delim, int depth);
+    static char* parse_value(char *json, JsonValue* &value, int depth);
 };
 
 
@@ -114,17 +118,21 @@ public:
         {
             return boolean;
         }
-        else
+        else if (type == JsonValueType::JVT_STRING)
         {
-            ASSERT(type == JsonValueType::JVT_STRING);
             ASSERT(str != nullptr);
             return ((*str == 't') || (*str == 'T'));
         }
+        else
+        {
+            return (type == JsonValueType::JVT_DOUBLE) && (dbl != 0.0);
+        }
     }
 
     inline double to_double() const
     {
-        return (type == JsonValueType::JVT_STRING) ? atof(str) : dbl;
+        if (type == JsonValueType::JVT_STRING) return atof(str);
+        return (type == JsonValueType::JVT_DOUBLE) ? dbl : 0.0;
     }
 
     inline JsonMap& to_map()
@@ -139,9 +147,12 @@ public:
         {
             return boolean ? "true" : "false";
         }
+        else if (type != JsonValueType::JVT_STRING)
+        {
+            throw std::runtime_error("A string was expected in JSON");
+        }
         else
         {
-            ASSERT(type == JsonValueType::JVT_STRING);
             ASSERT(str != nullptr);
             return str;
         }
diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index ceff1b3..c075602 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -27,25 +27,53 @@ namespace tt
 {
 
 
+// maps and arrays can't be nested deeper than this
+static const int MAX_JSON_DEPTH = 64;
+
+[[noreturn]] static void
+malformatted(const char *what, const char *json)
+{
+    throw std::runtime_error(std::string("Malformatted JSON ") + what + ": " + json);
+}
+
+// 'json' is at the opening quote; returns what's after the closing quote
+static char *
+parse_string(char *json, char* &str)
+{
+    if (*json != '"') malformatted("string", json);
+    str = ++json;
+    while ((*json != '"') && (*json != 0)) json++;
+    if (*json == 0) malformatted("string", str);
+    *json = 0;
+    return json + 1;
+}
+
 char *
 JsonParser::parse_map(char *json, JsonMap& map, char delim)
+{
+    return parse_map(json, map, delim, 0);
+}
+
+char *
+JsonParser::parse_map(char *json, JsonMap& map, char delim, int depth)
 {
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
-    if (*json != '{')
-        throw std::runtime_error(std::string("Malformatted JSON map: ") + json);
+    if ((*json != '{') || (depth > MAX_JSON_DEPTH))
+        malformatted("map", json);
     json++;
 
-    while (*json != 0)
+    for ( ; ; )
     {
         while (std::isspace(*json)) json++;
         if (*json == '}') { json++; break; }
         if (*json == ',') json++;
         std::pair<const char*,JsonValue*> pair;
-        json = parse_key_value(json, pair, delim);
-        ASSERT(map.find(pair.first) == map.end());
-        map[pair.first] = pair.second;
+        json = parse_key_value(json, pair, delim, depth);
+        JsonValue* &value = map[pair.first];
+        if (value != nullptr) free_value(value);
+        value = pair.second;
     }
 
     return json;
@@ -53,41 +81,79 @@ JsonParser::parse_map(char *json, JsonMap& map, char delim)
 
 char *
 JsonParser::parse_array(char *json, JsonArray& array)
+{
+    return parse_array(json, array, 0);
+}
+
+char *
+JsonParser::parse_array(char *json, JsonArray& array, int depth)
 {
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
-    if (*json != '[')
-        throw std::runtime_error(std::string("Malformatted JSON array: ") + json);
+    if ((*json != '[') || (depth > MAX_JSON_DEPTH))
+        malformatted("array", json);
     json++;
 
-    while (*json != 0)
+    for ( ; ; )
     {
         while (std::isspace(*json)) json++;
         if (*json == ']') { json++; break; }
         if (*json == ',') json++;
-        while (std::isspace(*json)) json++;
 
-        JsonValue *value =
-            (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
+        JsonValue *value;
+        json = parse_value(json, value, depth);
+        array.push_back(value);
+    }
+
+    return json;
+}
+
+char *
+JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair, char delim, int depth)
+{
+    ASSERT(json != nullptr);
+
+    char *key;
 
+    while (std::isspace(*json)) json++;
+    json = parse_string(json, key);
+    while (std::isspace(*json)) json++;
+    if (*json != delim) malformatted("map", key);
+
+    pair.first = key;
+    return parse_value(json+1, pair.second, depth);
+}
+
+char *
+JsonParser::parse_value(char *json, JsonValue* &result, int depth)
+{
+    while (std::isspace(*json)) json++;
+    if ((*json == 0) || (*json == ',') || (*json == ']') || (*json == '}'))
+        malformatted("value", json);
+
+    JsonValue *value =
+        (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
+
+    value->set_type(JsonValueType::JVT_NONE);
+
+    try
+    {
         if (*json == '"')
         {
-            char *str = ++json;
-            while (*json != '"') json++;
-            *json = 0;
-            json++;
+            char *str;
+            json = parse_string(json, str);
             value->set_value(str);
         }
-        else if (*json == '[')
-        {
-            json = parse_array(json, value->arr);
-            value->set_type(JsonValueType::JVT_ARRAY);
-        }
         else if (*json == '{')
         {
-            json = parse_map(json, value->map);
             value->set_type(JsonValueType::JVT_MAP);
+            json = parse_map(json, value->map, ':', depth+1);
+        }
+        else if (*json == '[')
+        {
+            value->set_type(JsonValueType::JVT_ARRAY);
+            json = parse_array(json, value->arr, depth+1);
         }
         else if (std::strncmp(json, "true", 4) == 0)
         {
@@ -103,80 +169,33 @@ JsonParser::parse_array(char *json, JsonArray& array)
         {
             double dbl = atof(json);
             value->set_value(dbl);
-            do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
+            while ((*json != ',') && (*json != ']') && (*json != '}') && (*json != 0)) json++;
         }
-
-        array.push_back(value);
+    }
+    catch (...)
+    {
+        free_value(value);
+        throw;
     }
 
+    result = value;
     return json;
 }
 
 char *
-JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair, char delim)
+JsonParser::parse_map_unquoted(char *json, JsonMap& map, char delim)
 {
-    ASSERT(json != nullptr);
-
-    while (std::isspace(*json)) json++;
-    ASSERT(*json == '"');
-    char *key = ++json;
-    while (*json != '"') json++;
-    *json = 0;
-    do { json++; } while (std::isspace(*json));
-    ASSERT(*json == delim);
-    do { json++; } while (std::isspace(*json));
-
-    JsonValue *value =
-        (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
-
-    if (*json == '"')
-    {
-        value->set_value(++json);
-        while (*json != '"') json++;
-        *json = 0;
-        json++;
-    }
-    else if (*json == '{')
-    {
-        json = parse_map(json, value->map);
-        value->set_type(JsonValueType::JVT_MAP);
-    }
-    else if (*json == '[')
-    {
-        json = parse_array(json, value->arr);
-        value->set_type(JsonValueType::JVT_ARRAY);
-    }
-    else if (std::strncmp(json, "true", 4) == 0)
-    {
-        value->set_value(true);
-        json += 4;
-    }
-    else if (std::strncmp(json, "false", 5) == 0)
-    {
-        value->set_value(false);
-        json += 5;
-    }
-    else
-    {
-        double dbl = atof(json);
-        value->set_value(dbl);
-        do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
-    }
-
-    pair.first = key;
-    pair.second = value;
-
-    return json;
+    return parse_map_unquoted(json, map, delim, 0);
 }
 
 char *
-JsonParser::parse_map_unquoted(char *json, JsonMap& map, char delim)
+JsonParser::parse_map_unquoted(char *json, JsonMap& map, char delim, int depth)
 {
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
-    if (*json != '{')
-        throw std::runtime_error(std::string("Malformatted JSON map: ") + json);
+    if ((*json != '{') || (depth > MAX_JSON_DEPTH))
+        malformatted("map", json);
     json++;
 
     while (*json != 0)
@@ -185,59 +204,71 @@ JsonParser::parse_map_unquoted(char *json, JsonMap& map, char delim)
         if (*json == '}') { *json = 0; json++; break; }
         if (*json == ',') { *json = 0; json++; }
         std::pair<const char*,JsonValue*> pair;
-        json = parse_key_value_unquoted(json, pair, delim);
-        map[pair.first] = pair.second;
+        json = parse_key_value_unquoted(json, pair, delim, depth);
+        JsonValue* &value = map[pair.first];
+        if (value != nullptr) free_value(value);
+        value = pair.second;
     }
 
     return json;
 }
 
 char *
-JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue*>& pair, char delim)
+JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue*>& pair, char delim, int depth)
 {
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
+    if (*json == 0) malformatted("kv", json);
     char *key = json++;
     while ((*json != delim) && !std::isspace(*json) && (*json != 0)) json++;
-    if (UNLIKELY(*json == 0))
-        throw std::runtime_error(std::string("Malformatted JSON kv: ") + key);
+    if (UNLIKELY(*json == 0)) malformatted("kv", key);
     *json = 0;
     do { json++; } while (std::isspace(*json) || (*json == delim));
 
     JsonValue *value =
         (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
 
-    if (*json == '{')
-    {
-        json = parse_map_unquoted(json, value->map);
-        value->set_type(JsonValueType::JVT_MAP);
-    }
-    else if (*json == '[')
-    {
-        // TODO: parse_array_unquoted()!
-        json = parse_array(json, value->arr);
-        value->set_type(JsonValueType::JVT_ARRAY);
-    }
-    else if (std::strncmp(json, "true", 4) == 0)
-    {
-        value->set_value(true);
-        json += 4;
-    }
-    else if (std::strncmp(json, "false", 5) == 0)
-    {
-        value->set_value(false);
-        json += 5;
-    }
-    else
+    value->set_type(JsonValueType::JVT_NONE);
+
+    try
     {
-        value->set_value(json);
-        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}')) json++;
-        if ((*json != ',') && (*json != ']') && (*json != '}'))
+        if (*json == '{')
         {
-            *json = 0;
-            json++;
+            value->set_type(JsonValueType::JVT_MAP);
+            json = parse_map_unquoted(json, value->map, ':', depth+1);
         }
+        else if (*json == '[')
+        {
+            // TODO: parse_array_unquoted()!
+            value->set_type(JsonValueType::JVT_ARRAY);
+            json = parse_array(json, value->arr, depth+1);
+        }
+        else if (std::strncmp(json, "true", 4) == 0)
+        {
+            value->set_value(true);
+            json += 4;
+        }
+        else if (std::strncmp(json, "false", 5) == 0)
+        {
+            value->set_value(false);
+            json += 5;
+        }
+        else
+        {
+            value->set_value(json);
+            while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}') && (*json != 0)) json++;
+            if ((*json != ',') && (*json != ']') && (*json != '}') && (*json != 0))
+            {
+                *json = 0;
+                json++;
+            }
+        }
+    }
+    catch (...)
+    {
+        free_value(value);
+        throw;
     }
 
     pair.first = key;
-- 
2.43.0


From e72068d5c5c7412026ee22816adb3b0823bb87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:13 +0000
Subject: [PATCH 41/54] fix: refuse downsamplers that are too long, empty or
 endless

---
 src/agg/down.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 58653e8..0c86329 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -30,6 +30,9 @@ namespace tt
 {
 
 
+// longest interval, in the unit of timestamps
+static const double MAX_INTERVAL = 1e15;
+
 Downsampler::Downsampler() :
     m_start(0L),
     m_interval(0L),
@@ -65,6 +68,9 @@ Downsampler::initialize(char *interval, char *fill, const TimeRange& range, bool
         // interval
         double factor = 1;
 
+        if (*interval == 0)
+            throw std::runtime_error("unrecognized downsampler");
+
         if (ends_with(interval, "ms"))
             factor = g_tstamp_resolution_ms ? 1 : 0.001;
         else
@@ -87,7 +93,10 @@ Downsampler::initialize(char *interval, char *fill, const TimeRange& range, bool
                 factor *= 1000;
         }
 
-        m_interval = (Timestamp)((double)std::atoll(interval) * factor);
+        double length = (double)std::atoll(interval) * factor;
+        if ((length < 0.0) || (MAX_INTERVAL < length))
+            throw std::runtime_error("downsampler interval out of range");
+        m_interval = (Timestamp)length;
         if (m_interval == 0) m_interval = 1;
     }
 
@@ -124,6 +133,14 @@ Downsampler::initialize(char *interval, char *fill, const TimeRange& range, bool
         }
     }
 
+    // don't start filling what can never fit into a response
+    if ((m_fill != DownsampleFillPolicy::DFP_NONE) &&
+        (m_time_range.get_from() < m_time_range.get_to()) &&
+        ((m_time_range.get_duration() / m_interval) > MemoryManager::get_network_buffer_size()))
+    {
+        throw std::runtime_error("too many intervals to fill");
+    }
+
     init(); // initialize child downsamplers
 }
 
@@ -138,9 +155,12 @@ Downsampler::create(const char *downsample, const TimeRange& range, bool ms)
     }
 
     char tmp[64];
-    std::strncpy(tmp, downsample, sizeof(tmp));
     std::vector<char*> tokens;
 
+    if (std::strlen(downsample) >= sizeof(tmp))
+        throw std::runtime_error("unrecognized downsampler");
+    std::strcpy(tmp, downsample);
+
     tokenize(tmp, '-', tokens);
     if (tokens.size() < 2) return nullptr;
 
@@ -226,7 +246,15 @@ Downsampler::create(const char *downsample, const TimeRange& range, bool ms)
 
     if (downsampler != nullptr)
     {
-        downsampler->initialize(interval, fill, range, ms);
+        try
+        {
+            downsampler->initialize(interval, fill, range, ms);
+        }
+        catch (...)
+        {
+            MemoryManager::free_recyclable(downsampler);
+            throw;
+        }
     }
 
     return downsampler;
-- 
2.43.0


From 29358ca115e4f81607a3a1f98b8926a38783a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:13 +0000
Subject: [PATCH 42/54] fix: clients that leave early don't kill the server

---
 src/core/http.cpp | 2 +-
 src/core/tcp.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 55c403c..f026a91 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -630,7 +630,7 @@ HttpServer::send_response(HttpConnection *conn)
         char *buff = response.response + sent;
         target = response.response_size - sent;
 
-        ssize_t n = send(fd, buff, target, MSG_DONTWAIT);
+        ssize_t n = send(fd, buff, target, MSG_DONTWAIT | MSG_NOSIGNAL);
 
         if (n < 0)
         {
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index b1a32a3..0612286 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -572,7 +572,7 @@ TcpServer::send_response(int fd, char *content, int len)
 
     while (len > 0)
     {
-        int sent = send(fd, content+sent_total, len, 0);
+        int sent = send(fd, content+sent_total, len, MSG_NOSIGNAL);
 
         if (sent == -1)
         {
-- 
2.43.0


From 1b995baf72f6090bd7eee7523532101246117368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:13 +0000
Subject: [PATCH 43/54] fix: refuse points in days that can't be represented

---
 include/limit.h | 2 ++
 src/core/ts.cpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/limit.h b/include/limit.h
index c3d6bc4..6123258 100644
--- a/include/limit.h
+++ b/include/limit.h
@@ -30,6 +30,8 @@ namespace tt
 
 #define MAX_SEC_SINCE_EPOCH         10000000000ull
 #define MAX_MS_SINCE_EPOCH          10000000000000ull
+#define FIRST_DAY_SINCE_EPOCH_MS    10022400000ull  // first whole day of 11 digits
+#define LAST_DAY_SINCE_EPOCH        9999936000ull   // no data from here on; in seconds
 #define MAX_US_SINCE_EPOCH          10000000000000000ull
 
 }
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index fa699a1..f4a3fcd 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -300,8 +300,12 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     bool new_tsdb = false;
     //std::lock_guard<std::mutex> guard(m_lock);
 
-    // timestamp can't be 14 digits or more
-    if (MAX_MS_SINCE_EPOCH <= tstamp)
+    // timestamp can't be 14 digits or more, nor in a day that ends past 13 digits
+    if (MAX_MS_SINCE_EPOCH <= tstamp || LAST_DAY_SINCE_EPOCH <= to_sec(tstamp))
+        return false;
+
+    // fewer milliseconds would be taken for seconds
+    if (g_tstamp_resolution_ms && (to_ms(tstamp) < FIRST_DAY_SINCE_EPOCH_MS))
         return false;
 
     std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
-- 
2.43.0


From 6e63486e0143ca51eaef58016f1787d430f68a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:13 +0000
Subject: [PATCH 44/54] fix: refuse field names that can't be restored

---
 src/core/tsdb.cpp | 6 ++++++
 src/utils/tag.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 26d3ffb..0ccf97a 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -637,6 +637,12 @@ Mapping::add_data_points(const char *measurement, char *tags, Timestamp ts, std:
 
     char buff[8];
 
+    for (DataPoint& dp: dps)
+    {
+        if (UNLIKELY(! TagOwner::is_valid_name(dp.get_raw_tags(), ",;=")))
+            return false;
+    }
+
     if (tags == nullptr)
     {
         buff[0] = ';';
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 2b78b2e..87654cc 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -175,7 +175,10 @@ TagOwner::has_valid_tags() const
 {
     for (Tag *tag = m_tags; tag != nullptr; tag = tag->next())
     {
-        if (! is_valid_name(tag->m_key, ",;=") || ! is_valid_name(tag->m_value, ",;"))
+        // the name of a field can't have '=' in it
+        const char *reserved = (std::strcmp(tag->m_key, TT_FIELD_TAG_NAME) == 0) ? ",;=" : ",;";
+
+        if (! is_valid_name(tag->m_key, ",;=") || ! is_valid_name(tag->m_value, reserved))
             return false;
     }
 
-- 
2.43.0


From 3e548f9010bb364df718d3a0ede946a11f45b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:51 +0000
Subject: [PATCH 45/54] fix: one order for tags of the same name

---
 src/utils/kv.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index ebb8ad4..38f01d2 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -140,6 +140,14 @@ KeyValuePair::prepend(KeyValuePair **list, const char *key, const char *value)
     *list = kv;
 }
 
+// In order of keys; pairs of the same key in order of values
+static bool
+in_order(KeyValuePair *kv1, KeyValuePair *kv2)
+{
+    int i = std::strcmp(kv1->m_key, kv2->m_key);
+    return (i != 0) ? (i < 0) : (std::strcmp(kv1->m_value, kv2->m_value) <= 0);
+}
+
 // Insert '<key>=<value>' to the right position, in sorted order by key, in 'list'
 void
 KeyValuePair::insert_in_order(KeyValuePair **list, const char *key, const char *value)
@@ -156,7 +164,7 @@ KeyValuePair::insert_in_order(KeyValuePair **list, const char *key, const char *
     kv->m_value = value;
 
     // insert it in sorted order
-    if ((*list == nullptr) || (strcmp(kv->m_key, (*list)->m_key) <= 0))
+    if ((*list == nullptr) || in_order(kv, *list))
     {
         kv->next() = *list;
         *list = kv;
@@ -166,7 +174,7 @@ KeyValuePair::insert_in_order(KeyValuePair **list, const char *key, const char *
         KeyValuePair *next;
 
         for (next = *list;
-             (next->next() != nullptr) && (strcmp(next->next()->m_key, kv->m_key) < 0);
+             (next->next() != nullptr) && ! in_order(kv, next->next());
              next = next->next())
         {
             /* do nothing */
-- 
2.43.0


From 115d903b22ba37fd1ee1fafee6aa1b8cf7b0be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:37 +0000
Subject: [PATCH 46/54] fix: guard the fields of a measurement by its lock

---
 src/core/tsdb.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 0ccf97a..d83de70 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -284,6 +284,7 @@ Measurement::get_ts(std::vector<DataPoint>& dps, std::vector<TimeSeries*>& tsv)
 void
 Measurement::get_all_ts(std::vector<TimeSeries*>& tsv)
 {
+    std::lock_guard<std::mutex> guard(m_lock);
     tsv.reserve(m_ts_count);
     for (int i = 0; i < m_ts_count; i++)
         tsv.push_back((TimeSeries*)m_time_series[i]);
@@ -491,7 +492,6 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
 {
     ASSERT(field != nullptr);
 
-    TimeSeries *ts = nullptr;
     std::vector<DataPoint> dps;
 
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
@@ -503,12 +503,7 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     if (UNLIKELY(mm == nullptr))
         return nullptr;
 
-    ts = mm->get_ts(0, field->m_value);
-
-    if (ts == nullptr)
-        ts = mm->add_ts(field->m_value, this);
-
-    return ts;
+    return mm->get_or_add_ts(0, field->m_value, this);
 }
 
 Measurement *
-- 
2.43.0


From 1ebddf7b5104e4cf7ae0d70016438a9aea951140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:26:37 +0000
Subject: [PATCH 47/54] fix: queries read data on disk and in memory under one
 lock

---
 include/query.h    |  1 +
 include/ts.h       |  2 ++
 src/core/query.cpp | 28 ++++++++++++++++++++++++----
 src/core/ts.cpp    |  2 --
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/query.h b/include/query.h
index 9341c93..5e54c7d 100644
--- a/include/query.h
+++ b/include/query.h
@@ -185,6 +185,7 @@ class QueryTask : public Recyclable
 {
 public:
     QueryTask();
+    std::mutex& get_ts_lock();
     void query_ts_data(Tsdb *tsdb, const TimeRange& range);
     void query_ts_data(const TimeRange& range, RollupType rollup_type, bool ms);
     void merge_data(const TimeRange& range);
diff --git a/include/ts.h b/include/ts.h
index 8652612..3815d11 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -81,6 +81,8 @@ public:
     void get_keys(std::set<std::string>& keys) const { m_tags.get_keys(keys); }
     void get_values(std::set<std::string>& values) const { m_tags.get_values(values); }
 
+    inline std::mutex& get_lock() { return m_locks[m_id % m_lock_count]; }
+    // caller should hold the lock, get_lock()
     bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data);
     void query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType rollup, bool ms);
 
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 9c015c7..5b7844e 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -20,6 +20,7 @@
 #include <chrono>
 #include <cstring>
 #include <algorithm>
+#include <map>
 #include "aggregate.h"
 #include "compress.h"
 #include "config.h"
@@ -602,6 +603,13 @@ QueryTask::QueryTask()
     init();
 }
 
+std::mutex&
+QueryTask::get_ts_lock()
+{
+    ASSERT(m_ts != nullptr);
+    return m_ts->get_lock();
+}
+
 void
 QueryTask::query_ts_data(Tsdb *tsdb, const TimeRange& range)
 {
@@ -1060,13 +1068,25 @@ QuerySuperTask::query_raw(Tsdb *tsdb, const TimeRange& range, std::vector<QueryT
     ASSERT(tsdb != nullptr);
     if (tasks.empty()) return;
 
-    tsdb->query_for_data(m_metric_id, range, tasks, m_compact);
+    // Data on disk and data in memory must be read together, under the
+    // same lock; or else those being flushed in between will be missed.
+    std::map<std::mutex*, std::vector<QueryTask*>> groups;
 
     for (QueryTask *task : tasks)
+        groups[&task->get_ts_lock()].push_back(task);
+
+    for (auto& group : groups)
     {
-        task->query_ts_data(tsdb, range);
-        task->merge_data(range);
-        task->set_tstamp_from(0);
+        std::lock_guard<std::mutex> guard(*group.first);
+
+        tsdb->query_for_data(m_metric_id, range, group.second, m_compact);
+
+        for (QueryTask *task : group.second)
+        {
+            task->query_ts_data(tsdb, range);
+            task->merge_data(range);
+            task->set_tstamp_from(0);
+        }
     }
 }
 
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index f4a3fcd..df4ba7d 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -460,8 +460,6 @@ bool
 TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data)
 {
     bool has_ooo = false;
-    //std::lock_guard<std::mutex> guard(m_lock);
-    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
     if ((m_buff != nullptr) && (! m_buff->is_empty()) && (m_buff->get_tsdb() == tsdb))
     {
-- 
2.43.0


From a81445158190d2ca9f09a5fb18a9f0a2a2efd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:14:06 +0000
Subject: [PATCH 48/54] fix: keep files open while they are being read or
 written

The rotation closed the index file between a query making sure that it was
open and reading it, so a day's points were missing from the answer.
Opening and reading the index file is now done under its lock, and the
rotation closes header and data files under the lock of the tsdb.
---
 src/core/mmap.cpp | 8 ++++++++
 src/core/tsdb.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 800cd01..786f3d0 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -405,6 +405,7 @@ bool
 IndexFile::set_indices(TimeSeriesId id, FileIndex file_index, HeaderIndex header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -432,6 +433,7 @@ bool
 IndexFile::set_indices2(TimeSeriesId id, FileIndex file_index, HeaderIndex header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -459,6 +461,7 @@ void
 IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -482,6 +485,7 @@ void
 IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -505,6 +509,7 @@ bool
 IndexFile::get_out_of_order(TimeSeriesId id)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -526,6 +531,7 @@ void
 IndexFile::set_out_of_order(TimeSeriesId id, bool ooo)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -555,6 +561,7 @@ bool
 IndexFile::get_out_of_order2(TimeSeriesId id)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -577,6 +584,7 @@ void
 IndexFile::set_out_of_order2(TimeSeriesId id, bool ooo)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d83de70..7487dea 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3292,6 +3292,8 @@ Tsdb::unload_no_lock()
 void
 Tsdb::unload_if_idle(Timestamp threshold_sec, Timestamp now_sec)
 {
+    std::lock_guard<std::mutex> guard(m_lock);
+
     if (m_index_file.close_if_idle(threshold_sec, now_sec))
     {
         m_mode = m_mode.load() & ~TSDB_MODE_READ_WRITE;
@@ -3363,7 +3365,12 @@ Tsdb::rotate(TaskData& data)
         for (auto metric: metrics)
         {
             if (metric == nullptr) continue;
-            all_closed = metric->rotate(now_sec, thrashing_threshold) && all_closed;
+
+            {
+                std::lock_guard<std::mutex> guard(tsdb->m_lock);
+                all_closed = metric->rotate(now_sec, thrashing_threshold) && all_closed;
+            }
+
             metric->flush(true);
         }
 
-- 
2.43.0


From 70e0f221e00750d6732659ddc28b98ed8f76fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:49 +0000
Subject: [PATCH 49/54] fix: keep the list of check-points within its buffer

---
 src/admin.cpp   |  2 +-
 src/core/cp.cpp | 30 ++++++++++++------------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/admin.cpp b/src/admin.cpp
index 1a107f2..2ce65b5 100644
--- a/src/admin.cpp
+++ b/src/admin.cpp
@@ -235,7 +235,7 @@ Admin::cmd_cp(KeyValuePair *params, HttpResponse& response)
     const char *leader = KeyValuePair::get_value(params, "leader");
     char *buff = MemoryManager::alloc_network_buffer();
     size_t size = MemoryManager::get_network_buffer_size();
-    int len = CheckPointManager::get_persisted(leader, buff, size);
+    int len = CheckPointManager::get_persisted(leader, buff, size - MAX_HEADER_SIZE);
     ASSERT(len > 0);
     response.init(200, HttpContentType::JSON, len, buff);
     MemoryManager::free_network_buffer(buff);
diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 55ebf40..2c1df81 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -124,18 +124,12 @@ CheckPointManager::get_persisted(const char *leader, char *buff, int size)
     {
         for (auto it = m_persisted.begin(); it != m_persisted.end(); it++)
         {
-            if (idx > 1)
-            {
-                buff[idx++] = ',';
-                size--;
-            }
-
-            int len;
-            len = get_persisted_of(it->first, it->second, &buff[idx], size);
-            ASSERT(len < size);
-            idx += len;
-            size -= len;
-            if (size <= 1) break;
+            int comma = (idx > 1) ? 1 : 0;
+            int len = get_persisted_of(it->first, it->second, &buff[idx+comma], size-comma);
+            if (len == 0) break;    // no more room
+            if (comma) buff[idx] = ',';
+            idx += comma + len;
+            size -= comma + len;
         }
     }
     else
@@ -153,33 +147,33 @@ CheckPointManager::get_persisted(const char *leader, char *buff, int size)
 
 /* Return format:
  *  {"leader":"1","channels":[{"channel":"ch1","checkpoint":"cp1"},{"channel":"ch2","cp":"cp2"}]}
+ * Those that do not fit are left out; nothing at all is written if that's all of it.
  */
 int
 CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff, int size)
 {
     int len = 0;
 
+    size -= 3;  // for the end
+    if (size <= 0) return 0;
     len = snprintf(buff, size, "{\"leader\":\"%s\",\"channels\":[", leader);
+    if (len >= size) return 0;
     size -= len;
-    ASSERT(size >= 0);
 
     for (auto it = map.begin(); it != map.end(); it++)
     {
-        if (size <= 1) break;
         int n = snprintf(&buff[len], size, "{\"channel\":\"%s\",\"checkpoint\":\"%s\"},",
             it->first, it->second.c_str());
+        if (n >= size) break;   // no more room
         len += n;
         size -= n;
     }
 
     // remove last comma
     if (buff[len-1] == ',')
-    {
         len--;
-        size++;
-    }
 
-    len += snprintf(&buff[len], size, "]}");
+    len += sprintf(&buff[len], "]}");
     return len;
 }
 
-- 
2.43.0


From 57a78ec16ee46a57c325845a0086a3c9d9a8c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:49 +0000
Subject: [PATCH 50/54] fix: check-points are durable together with the data
 they stand for

---
 include/cp.h      |  5 +++--
 src/core/cp.cpp   | 23 +++++++++++++++++------
 src/core/tsdb.cpp |  7 +++++--
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/cp.h b/include/cp.h
index e5110dc..8dc783d 100644
--- a/include/cp.h
+++ b/include/cp.h
@@ -43,8 +43,9 @@ public:
     // add check-point received from client/leader
     static bool add(char *cp);
 
-    // take a snapshot of all check-points before flushing database
-    static void take_snapshot();
+    // take a snapshot of all check-points before flushing database;
+    // return false if there aren't any
+    static bool take_snapshot();
 
     // persist the snapshot (from last take_snapshot() call) to disk
     static void persist();
diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 2c1df81..2607d5b 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -57,12 +57,14 @@ CheckPointManager::init()
 
     while (std::getline(is, line))
     {
-        char buff[1024];
-        std::strncpy(buff, line.c_str(), sizeof(buff));
-        CheckPointManager::add(buff);
+        std::vector<char> buff(line.c_str(), line.c_str() + line.size() + 1);
+        CheckPointManager::add(buff.data());
     }
 
     is.close();
+
+    std::lock_guard<std::mutex> guard(m_lock);
+    m_persisted = m_cps;
 }
 
 // format of cp: <leader>:<channel>:<check-point>
@@ -98,11 +100,12 @@ CheckPointManager::add(char *cp)
     return true;
 }
 
-void
+bool
 CheckPointManager::take_snapshot()
 {
     std::lock_guard<std::mutex> guard(m_lock);
     m_snapshot = m_cps;
+    return ! m_snapshot.empty();
 }
 
 /* Return format:
@@ -196,12 +199,13 @@ CheckPointManager::persist_to_file()
 
     Timestamp ts = ts_now_sec();
     std::string file_name = Config::get_data_dir() + "/" + std::to_string(ts) + ".cp";
-    int fd = ::open(file_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
+    std::string tmp_name = file_name + ".tmp";
+    int fd = ::open(tmp_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
 
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
     if (fd == -1)
     {
-        Logger::error("Failed to open file %s for write: %d", file_name.c_str(), errno);
+        Logger::error("Failed to open file %s for write: %d", tmp_name.c_str(), errno);
         return false;
     }
 
@@ -225,6 +229,13 @@ CheckPointManager::persist_to_file()
     std::fflush(fp);
     std::fclose(fp);
 
+    // never leave a partial file to be loaded
+    if (std::rename(tmp_name.c_str(), file_name.c_str()) != 0)
+    {
+        Logger::error("Failed to rename %s to %s", tmp_name.c_str(), file_name.c_str());
+        return false;
+    }
+
     std::string pattern = Config::get_data_dir() + "/*.cp";
     rotate_files(pattern, 10);
     return true;
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 7487dea..90f5006 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -30,6 +30,7 @@
 #include <regex>
 #include <sstream>
 #include "admin.h"
+#include "append.h"
 #include "config.h"
 #include "cp.h"
 #include "limit.h"
@@ -3338,7 +3339,7 @@ Tsdb::rotate(TaskData& data)
         }
     }
 
-    CheckPointManager::take_snapshot();
+    bool has_cps = CheckPointManager::take_snapshot();
 
     uint64_t now_sec = to_sec(now);
     uint64_t thrashing_threshold =
@@ -3387,7 +3388,9 @@ Tsdb::rotate(TaskData& data)
         tsdb->dec_ref_count();
     }
 
-    CheckPointManager::persist();
+    // what is still in memory has to be durable before check-points are
+    if (has_cps) AppendLog::flush_all(data);
+    if (! g_shutdown_requested) CheckPointManager::persist();
     MetaFile::instance()->flush();
 
     if (Config::inst()->exists(CFG_TSDB_RETENTION_THRESHOLD))
-- 
2.43.0


From a839a26c2fb1a45d6a55062635f2cb11fad01335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:49 +0000
Subject: [PATCH 51/54] fix: a value written over NaN or infinity replaces it

---
 include/ts.h    |  1 +
 src/core/ts.cpp | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/ts.h b/include/ts.h
index 3815d11..1c37a32 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -97,6 +97,7 @@ private:
                             // not on disk; otherwise it's contents are at least
                             // partially on the page indexed by m_id
     PageInMemory *m_ooo_buff;
+    Timestamp m_last_ooo;   // of the last out-of-order data point, by time
     Tag_v2 m_tags;
     TimeSeriesId m_id;      // global, unique, permanent id starting at 0
 
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index df4ba7d..671f080 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -45,7 +45,8 @@ TimeSeries::TimeSeries(const char *metric, const char *key, Tag *tags) :
     m_next(nullptr),
     m_tags(tags),
     m_buff(nullptr),
-    m_ooo_buff(nullptr)
+    m_ooo_buff(nullptr),
+    m_last_ooo(0)
 {
     ASSERT(metric != nullptr);
     ASSERT(key != nullptr);
@@ -58,7 +59,8 @@ TimeSeries::TimeSeries(const char *metric, TagBuilder& builder) :
     m_next(nullptr),
     m_tags(builder),
     m_buff(nullptr),
-    m_ooo_buff(nullptr)
+    m_ooo_buff(nullptr),
+    m_last_ooo(0)
 {
     m_id = m_next_id.fetch_add(1);
     MetaFile::instance()->add_ts(metric, m_tags, m_id);
@@ -68,7 +70,8 @@ TimeSeries::TimeSeries(TagBuilder& builder) :
     m_next(nullptr),
     m_tags(builder),
     m_buff(nullptr),
-    m_ooo_buff(nullptr)
+    m_ooo_buff(nullptr),
+    m_last_ooo(0)
 {
     m_id = m_next_id.fetch_add(1);
 }
@@ -79,7 +82,8 @@ TimeSeries::TimeSeries(TagBuilder& builder, TimeSeriesId id) :
     m_next(nullptr),
     m_tags(builder),
     m_buff(nullptr),
-    m_ooo_buff(nullptr)
+    m_ooo_buff(nullptr),
+    m_last_ooo(0)
 {
     if (m_next_id.load() <= id)
         m_next_id = id + 1;
@@ -140,6 +144,7 @@ TimeSeries::init(TimeSeriesId id, const char *metric, const char *key, Tag *tags
     m_id = id;
     m_buff = nullptr;
     m_ooo_buff = nullptr;
+    m_last_ooo = 0;
 }
 
 void
@@ -353,7 +358,8 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     else
     {
         //Timestamp last_tstamp = m_buff->get_last_tstamp(mid, m_id);
-        is_ooo = is_ooo || m_buff->is_out_of_order(mid, m_id, tstamp);
+        // special values in the out-of-order page could be newer than anything in m_buff
+        is_ooo = is_ooo || (tstamp <= m_last_ooo) || m_buff->is_out_of_order(mid, m_id, tstamp);
     }
 
     if (is_ooo)
@@ -450,6 +456,9 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
         ASSERT(ok);
     }
 
+    if (m_last_ooo < tstamp)
+        m_last_ooo = tstamp;
+
     // rollup data can't be updated; do not use them
     m_ooo_buff->get_tsdb()->set_out_of_order2(m_id, true);
 
-- 
2.43.0


From 3110620ea975dc493b98ad2be975a54ec6c81cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:49 +0000
Subject: [PATCH 52/54] fix: keep the sign of infinity in query answers

---
 src/core/query.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 5b7844e..9b6f158 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -16,6 +16,7 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cmath>
 #include <cassert>
 #include <chrono>
 #include <cstring>
@@ -1772,7 +1773,7 @@ QueryResults::to_json(char *buff, int size) const
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
-            n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"Inf\"", dp.first);
+            n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"%sInf\"", dp.first, std::signbit(dp.second) ? "-" : "");
         else if (UNLIKELY(isnan(dp.second)))
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"NaN\"", dp.first);
         else
-- 
2.43.0


From 736374ff757216ad174fc2b6c193e70512601b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:06:29 +0000
Subject: [PATCH 53/54] fix: forget the last request before refusing one that
 is too large

---
 src/core/http.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index f026a91..3d76a0a 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -293,6 +293,9 @@ HttpServer::recv_http_data(TaskData& data)
         }
     }
 
+    // nothing in the last request is valid anymore
+    conn->request.init();
+
     if (len >= buff_size)
     {
         HttpServer::send_response(conn, 413);
@@ -311,7 +314,6 @@ HttpServer::recv_http_data(TaskData& data)
 
         Logger::http("Recved request on %p: len=%d\n%s", fd, conn, len, buff);
 
-        conn->request.init();
         parse_header(buff, len, conn->request);
 
         if (conn->request.header_ok)
-- 
2.43.0


From 8b968fda7f318f4efe6ca24b739ea39c02d85009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:06:35 +0000
Subject: [PATCH 54/54] fix: print parameters without a value

---
 src/utils/kv.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index 38f01d2..c7449c7 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -336,13 +336,14 @@ KeyValuePair::to_json(KeyValuePair *list, char *buff, int size)
     {
         if ((n+3) > size) break;
         // skip "_field"="_";
-        if ((kv->m_key[0] == '_') && (kv->m_value[0] == '_') &&
+        const char *value = (kv->m_value == nullptr) ? "" : kv->m_value;
+        if ((kv->m_key[0] == '_') && (value[0] == '_') &&
             (strcmp(kv->m_key, TT_FIELD_TAG_NAME) == 0) &&
-            (kv->m_value[1] == 0))
+            (value[1] == 0))
             continue;
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
-        n += snprintf(buff+n, size-n, "\"%s\":\"%s\"", kv->m_key, kv->m_value);
+        n += snprintf(buff+n, size-n, "\"%s\":\"%s\"", kv->m_key, value);
     }
 
     if (size > n)
-- 
2.43.0

