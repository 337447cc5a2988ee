From 52c2392d8c86dceef5d9400a8953534602c55e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:06 +0000
Subject: [PATCH 01/84] fix: do not log while holding the config lock

Logger::rotate() reads its settings while it holds the logger's lock, so
Config::get_time() logging a warning under the config lock can deadlock
with it.
---
 src/utils/config.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 4ed6f38..06865dd 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -470,20 +470,24 @@ Config::get_time(const std::string& name, TimeUnit unit)
 Timestamp
 Config::get_time(const std::string& name, TimeUnit unit, const std::string& def_value)
 {
-    std::lock_guard<std::mutex> guard(m_lock);
-    std::shared_ptr<Property> property = get_property(name);
-    Timestamp tstamp;
-    if (property == nullptr)
-        tstamp = Property::as_time(def_value, unit);
-    else
+    Timestamp tstamp = TT_INVALID_TIMESTAMP;
+    bool configured = false;
     {
-        tstamp = property->as_time(unit);
-        if (tstamp == TT_INVALID_TIMESTAMP)
+        std::lock_guard<std::mutex> guard(m_lock);
+        std::shared_ptr<Property> property = get_property(name);
+        if (property != nullptr)
         {
-            tstamp = Property::as_time(def_value, unit);
+            configured = true;
+            tstamp = property->as_time(unit);
+        }
+    }
+    if (tstamp == TT_INVALID_TIMESTAMP)
+    {
+        tstamp = Property::as_time(def_value, unit);
+        // do NOT log while holding m_lock: the logger reads its config while holding its own lock
+        if (configured)
             Logger::warn("Invalid time config %s ignored, using default %s",
                 name.c_str(), def_value.c_str());
-        }
     }
     ASSERT(tstamp != TT_INVALID_TIMESTAMP);
     return tstamp;
-- 
2.43.0


From 365433328b08ed1cd9b64f9e14ae0b606bd4a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:15 +0000
Subject: [PATCH 02/84] fix: never purge a partition that is still in use

purge_oldest() deleted the oldest archived partition without looking at its
reference count, while Tsdb::inst() counted its reference only after the
list lock was released. A query or a late write holding the partition ended
up with freed memory. It also destroyed the partition while holding the
mutex inside it.
---
 src/core/tsdb.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6b0ebe4..2622f0f 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2233,6 +2233,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
     {
         PThread_ReadLock guard(&m_tsdb_lock);
         tsdb = Tsdb::search(tstamp);
+        if (tsdb != nullptr)
+            tsdb->inc_ref_count();  // before it can be purged
     }
 
     if ((tsdb == nullptr) && create)
@@ -2247,10 +2249,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
             Logger::info("Created %T, tstamp = %" PRIu64, tsdb, tstamp);
             ASSERT(Tsdb::search(tstamp) == tsdb);
         }
-    }
-
-    if (tsdb != nullptr)
         tsdb->inc_ref_count();
+    }
 
     return tsdb;
 }
@@ -3399,11 +3399,11 @@ Tsdb::purge_oldest(Timestamp threshold_in_days)
         {
             tsdb = m_tsdbs.front();
 
-            if (tsdb->is_archived())
+            if (tsdb->is_archived() && (tsdb->m_ref_count <= 0))
                 m_tsdbs.erase(m_tsdbs.begin());
             else
             {
-                Logger::info("[rotate] Tsdb %T not archived yet. Purging postponed.", tsdb);
+                Logger::info("[rotate] Tsdb %T not archived yet, or still in use. Purging postponed.", tsdb);
                 tsdb = nullptr;
             }
         }
@@ -3413,16 +3413,19 @@ Tsdb::purge_oldest(Timestamp threshold_in_days)
     {
         Logger::info("[rotate] Purging %T permenantly", tsdb);
 
-        std::lock_guard<std::mutex> guard(tsdb->m_lock);
-        //WriteLock guard(tsdb->m_lock);
+        {
+            std::lock_guard<std::mutex> guard(tsdb->m_lock);
+            //WriteLock guard(tsdb->m_lock);
 
-        tsdb->flush(true);
-        tsdb->unload_no_lock();
+            tsdb->flush(true);
+            tsdb->unload_no_lock();
 
-        // purge files on disk
-        std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
-        rm_dir2(tsdb_dir);
+            // purge files on disk
+            std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
+            rm_dir2(tsdb_dir);
+        }
 
+        // the lock lives inside the Tsdb, so release it first
         delete tsdb;
     }
 }
-- 
2.43.0


From d1a50bcac050b0fac0bdf2f9ac07f303e473cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:07 +0000
Subject: [PATCH 03/84] fix: lock a measurement while its list of fields is
 read or extended

A point with a _field tag looked up its series and added a missing one in
two separate steps, the second without the measurement's lock, so that two
writers could both add it, or free the array another thread was reading.
Listing the fields for a query did not take the lock either. A measurement
that can't be created no longer leads to a null pointer.
---
 src/core/tsdb.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 2622f0f..26d50f6 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -284,6 +284,7 @@ Measurement::get_ts(std::vector<DataPoint>& dps, std::vector<TimeSeries*>& tsv)
 void
 Measurement::get_all_ts(std::vector<TimeSeries*>& tsv)
 {
+    std::lock_guard<std::mutex> guard(m_lock);
     tsv.reserve(m_ts_count);
     for (int i = 0; i < m_ts_count; i++)
         tsv.push_back((TimeSeries*)m_time_series[i]);
@@ -497,10 +498,7 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     ASSERT(mm != nullptr);
 
     if (mm != nullptr)
-        ts = mm->get_ts(0, field->m_value);
-
-    if (ts == nullptr)
-        ts = mm->add_ts(field->m_value, this);
+        ts = mm->get_or_add_ts(0, field->m_value, this);
 
     return ts;
 }
-- 
2.43.0


From 3be75f000f058315f7553c36f1a859a9c8137595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:07 +0000
Subject: [PATCH 04/84] fix: lock the time series while reading its current
 rollup

A query read the in-memory rollup entry of a time series while a writer
could be updating it, returning a mix of two entries.
---
 src/core/ts.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index b5004b2..51ce89e 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -482,6 +482,7 @@ TimeSeries::query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType r
 {
     ASSERT(rollup != RollupType::RU_NONE);
 
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
     Timestamp ts = m_rollup.get_tstamp();   // in seconds
 
     if (is_ms(range.get_from()))
-- 
2.43.0


From df253cd7c4ea79a9cfe3ebb3e6b4142016e7b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:07 +0000
Subject: [PATCH 05/84] fix: protect the recent rollup file sizes with a lock

Opening a rollup file read the queue of recent sizes without a lock while
rotation could be pushing to it. The manager's lock can't be taken there
because it is acquired before a file's own lock, so use a separate one.
---
 include/rollup.h   | 1 +
 src/agg/rollup.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rollup.h b/include/rollup.h
index 7011bb7..02c026e 100644
--- a/include/rollup.h
+++ b/include/rollup.h
@@ -106,6 +106,7 @@ private:
     static std::unordered_map<uint64_t, RollupDataFile*> m_data_files;  // monthly
     static std::mutex m_lock2;
     static std::unordered_map<uint64_t, RollupDataFile*> m_data_files2; // annually
+    static std::mutex m_size_lock;  // protects m_sizes and m_size_hint
     static std::queue<int64_t> m_sizes;   // sizes of 'recent' monthly data files
     static int64_t m_size_hint;
     static std::mutex m_cfg_lock;
diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f195988..2fa0051 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -38,6 +38,7 @@ std::unordered_map<uint64_t, RollupDataFile*> RollupManager::m_data_files;  // m
 std::mutex RollupManager::m_lock2;
 std::unordered_map<uint64_t, RollupDataFile*> RollupManager::m_data_files2; // annually
 RollupDataFile *RollupManager::m_wal_data_file = nullptr;
+std::mutex RollupManager::m_size_lock;
 std::queue<int64_t> RollupManager::m_sizes;
 int64_t RollupManager::m_size_hint;
 std::mutex RollupManager::m_cfg_lock;
@@ -766,6 +767,8 @@ RollupManager::swap_recompressed_files(std::vector<RollupDataFile*>& data_files)
 void
 RollupManager::add_data_file_size(int64_t size)
 {
+    std::lock_guard<std::mutex> guard(m_size_lock);
+
     if (m_sizes.size() >= 10)   // keep 10 most recent sizes
     {
         m_size_hint -= m_sizes.front();
@@ -779,7 +782,7 @@ RollupManager::add_data_file_size(int64_t size)
 int64_t
 RollupManager::get_rollup_data_file_size(RollupLevel level)
 {
-    //std::lock_guard<std::mutex> guard(m_lock);
+    std::lock_guard<std::mutex> guard(m_size_lock);
     int64_t level1_size;
 
     if (m_sizes.empty())
-- 
2.43.0


From 72a8b6912f3b6a664e51b7bd7ba7fae1cc8d761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:07 +0000
Subject: [PATCH 06/84] fix: lock the list of metrics while archiving an idle
 partition

A late write can add a metric to the partition while the list is iterated.
---
 src/core/tsdb.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 26d50f6..a5a45e4 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3252,7 +3252,14 @@ Tsdb::unload_if_idle(Timestamp threshold_sec, Timestamp now_sec)
     {
         m_mode = m_mode.load() & ~TSDB_MODE_READ_WRITE;
 
-        for (auto metric: m_metrics)
+        std::vector<Metric*> metrics;
+
+        {
+            std::lock_guard<std::mutex> guard(m_metrics_lock);
+            metrics = m_metrics;
+        }
+
+        for (auto metric: metrics)
         {
             if (metric != nullptr)
                 metric->close();
-- 
2.43.0


From b8402f298e7ede5bf5c3273f602ebe355524afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:25 +0000
Subject: [PATCH 07/84] fix: release partition references on every path

Out-of-order points arriving before the series has a buffer, a failed
rollup and a rotation cut short by shutdown all left the partition's
reference count raised, so that it could never be compacted, rolled up or
purged again.
---
 src/core/ts.cpp   | 2 ++
 src/core/tsdb.cpp | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 51ce89e..8876217 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -300,6 +300,8 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
             update_rollup = true;
             m_buff = new PageInMemory(mid, m_id, tsdb, false);
         }
+        else
+            tsdb->dec_ref_count();
     }
     else if ((in_range = m_buff->in_range_strictly(tstamp)) != 0)
     {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index a5a45e4..27dd477 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3307,9 +3307,7 @@ Tsdb::rotate(TaskData& data)
 
     for (Tsdb *tsdb: tsdbs)
     {
-        if (g_shutdown_requested) break;
-
-        if (tsdb->is_archived())
+        if (g_shutdown_requested || tsdb->is_archived())
         {
             tsdb->dec_ref_count();
             continue;    // already archived
@@ -3812,7 +3810,11 @@ Tsdb::rollup(TaskData& data)
             Logger::info("[rollup] rolled up %d Tsdbs.", data.integer);
         }
         else
+        {
+            for (auto tsdb: tsdbs)
+                tsdb->dec_ref_count();
             Logger::warn("[rollup] rollup failed.");
+        }
     }
     else
     {
-- 
2.43.0


From b7c313f6392601ffe7b4c2ef14f9b3c9d54bcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:25 +0000
Subject: [PATCH 08/84] fix: do not persist check points when rotation was cut
 short

Once shutdown is requested rotate() stops flushing partitions, but it still
recorded the check points as persisted, although the data before them may
not be on disk yet.
---
 src/core/tsdb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 27dd477..785ab88 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3341,6 +3341,9 @@ Tsdb::rotate(TaskData& data)
         tsdb->dec_ref_count();
     }
 
+    // not everything has been flushed; let shutdown persist the check points
+    if (g_shutdown_requested) return false;
+
     CheckPointManager::persist();
     MetaFile::instance()->flush();
 
-- 
2.43.0


From 4109f51872cec7412c2a44055df9121c4cf35afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:03 +0000
Subject: [PATCH 09/84] fix: hold the logger's lock while its log file is
 reopened

The admin command to reopen the log closed the stream while other threads
could be writing to it. Since the lock is held while reopening, a failure to
move the file descriptor must not be logged from there: that would try to
take the same lock again and hang the server.
---
 include/fd.h         |  1 +
 include/logger.h     |  1 +
 src/utils/fd.cpp     | 24 +++++++++++++++++-------
 src/utils/logger.cpp | 18 ++++++++++++++----
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/fd.h b/include/fd.h
index f1b77e3..91655a8 100644
--- a/include/fd.h
+++ b/include/fd.h
@@ -54,6 +54,7 @@ public:
 
     // Returns new fd; or -1 when we run out of FDs
     static int dup_fd(int fd, FileDescriptorType type);
+    static int dup_fd_no_log(int fd, FileDescriptorType type);
 
 private:
     static int increase_max_tcp(int fd);
diff --git a/include/logger.h b/include/logger.h
index 0fa5a6a..1a714db 100644
--- a/include/logger.h
+++ b/include/logger.h
@@ -89,6 +89,7 @@ private:
     Logger();
     Logger(int fd); // per connection logger
     void rename();
+    void reopen_no_lock(int fd = -1);
 
     void print(const LogLevel level, int fd, const char *format, va_list args);
 
diff --git a/src/utils/fd.cpp b/src/utils/fd.cpp
index 612000a..bb0284e 100644
--- a/src/utils/fd.cpp
+++ b/src/utils/fd.cpp
@@ -68,13 +68,29 @@ FileDescriptorManager::init()
 
 int
 FileDescriptorManager::dup_fd(int fd, FileDescriptorType type)
+{
+    int new_fd = dup_fd_no_log(fd, type);
+
+    if (UNLIKELY((new_fd < 0) && (fd >= 0)))
+    {
+        int max_tcp = m_max_tcp.load(std::memory_order_relaxed);
+        int min_http = m_min_http.load(std::memory_order_relaxed);
+        Logger::error("Run out of file descriptors, fd=%d, min_file=%d, max_tcp=%d, min_http=%d",
+            fd, m_min_file, max_tcp, min_http);
+    }
+
+    return new_fd;
+}
+
+// Used by the Logger, while holding its lock.
+int
+FileDescriptorManager::dup_fd_no_log(int fd, FileDescriptorType type)
 {
     if (UNLIKELY(fd < 0)) return fd;
     if (UNLIKELY(fd >= m_min_file))
     {
         if (type != FileDescriptorType::FD_HTTP)
             return fd;
-        Logger::error("fd (%d) >= m_min_file (%d)", fd, m_min_file);
         close(fd);
         return -1;
     }
@@ -111,12 +127,6 @@ FileDescriptorManager::dup_fd(int fd, FileDescriptorType type)
 
     if ((new_fd >= 0) && (new_fd != fd))
         close(fd);
-    else if (new_fd < 0)
-    {
-        int max_tcp = m_max_tcp.load(std::memory_order_relaxed);
-        int min_http = m_min_http.load(std::memory_order_relaxed);
-        Logger::error("Run out of file descriptors, max_tcp=%d, min_http=%d", max_tcp, min_http);
-    }
 
     return new_fd;
 }
diff --git a/src/utils/logger.cpp b/src/utils/logger.cpp
index 061bb99..310e0bd 100644
--- a/src/utils/logger.cpp
+++ b/src/utils/logger.cpp
@@ -156,6 +156,14 @@ Logger::get_log_file(int fd)
 
 void
 Logger::reopen(int fd)
+{
+    std::lock_guard<std::mutex> guard(m_lock);
+    reopen_no_lock(fd);
+}
+
+// Caller should acquire m_lock, so do NOT log anything here.
+void
+Logger::reopen_no_lock(int fd)
 {
     close();
 
@@ -164,7 +172,7 @@ Logger::reopen(int fd)
     if (! log_file.empty() && (log_file != "-"))
     {
         m_fd = open(log_file.c_str(), O_APPEND|O_CREAT|O_WRONLY|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
-        m_fd = FileDescriptorManager::dup_fd(m_fd, FileDescriptorType::FD_FILE);
+        m_fd = FileDescriptorManager::dup_fd_no_log(m_fd, FileDescriptorType::FD_FILE);
 
         if (m_fd == -1)
         {
@@ -215,7 +223,7 @@ Logger::rotate(TaskData& data)
             // close the file; rename it; and then open a new one;
             logger->close();
             logger->rename();
-            logger->reopen();
+            logger->reopen_no_lock();
 
             // cleanup main log file, if necessary
             int retention_count = Config::inst()->get_int(CFG_LOG_RETENTION_COUNT, CFG_LOG_RETENTION_COUNT_DEF);
@@ -239,9 +247,11 @@ Logger::rotate(TaskData& data)
             }
             */
         }
-        else if (logger->m_stream != nullptr)
+        else
         {
-            std::fflush(logger->m_stream);
+            std::lock_guard<std::mutex> guard(logger->m_lock);
+            if (logger->m_stream != nullptr)
+                std::fflush(logger->m_stream);
         }
     }
 
-- 
2.43.0


From 07aa71763cbdea0edbf0e6380507c181863e43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:03 +0000
Subject: [PATCH 10/84] fix: close the original descriptor when it can't be
 moved

dup_fd() returned -1 without closing the descriptor it was given, leaking
it exactly when the process is short of descriptors.
---
 src/utils/fd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/fd.cpp b/src/utils/fd.cpp
index bb0284e..80bcf95 100644
--- a/src/utils/fd.cpp
+++ b/src/utils/fd.cpp
@@ -125,7 +125,8 @@ FileDescriptorManager::dup_fd_no_log(int fd, FileDescriptorType type)
         new_fd = fcntl(fd, F_DUPFD_CLOEXEC, m_min_file);
     }
 
-    if ((new_fd >= 0) && (new_fd != fd))
+    // the caller only gets the new one, which may be -1
+    if (new_fd != fd)
         close(fd);
 
     return new_fd;
-- 
2.43.0


From e23cd4668bb487ddb0971d6a67c9c9401a7aa9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:03 +0000
Subject: [PATCH 11/84] fix: keep rollup files referenced until they have been
 swapped

A monthly rollup let go of each file as soon as it was recompressed, but
used it again in the final swap. With a pause per file (5 seconds by
default) the whole run can take more than the hour after which rotation
closes and deletes unreferenced files.
---
 src/agg/rollup.cpp | 2 +-
 src/core/tsdb.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 2fa0051..f3ed6d2 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -708,7 +708,7 @@ RollupManager::swap_recompressed_files(std::vector<RollupDataFile*>& data_files)
 
         for (auto file: data_files)
         {
-            if (file->get_ref_count() != 0)
+            if (file->get_ref_count() > 1)  // other than our caller
             {
                 in_use = true;
                 break;
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 785ab88..86a41e9 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3778,8 +3778,7 @@ Tsdb::rollup(TaskData& data)
             std::unordered_map<TimeSeriesId,std::vector<struct rollup_entry_ext>> data;
             data_file_level1->query_for_level2_rollup(data);
             recompress_success = recompress_success && data_file_level1->recompress(data);
-            data_file_level1->dec_ref_count();
-            data_files_level1.push_back(data_file_level1);
+            data_files_level1.push_back(data_file_level1);  // still referenced
 
             RollupDataFile *data_file_level2 =
                 RollupManager::get_or_create_level2_data_file_by_bucket(bucket, month_range.get_from());
@@ -3797,6 +3796,9 @@ Tsdb::rollup(TaskData& data)
             recompress_success = RollupManager::swap_recompressed_files(data_files_level1);
         }
 
+        for (auto file: data_files_level1)
+            file->dec_ref_count();
+
         if (recompress_success)
         {
             data.integer = tsdbs.size();
-- 
2.43.0


From 5fe6e6c4ed23000047092d8b7cacfbc6e12a924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:21 +0000
Subject: [PATCH 12/84] fix: read the last entry of the index file

The bounds check rejected an entry that ends exactly at the end of the
file. A new index has room for 4096 series, so the data of series 4095 could
not be found until the file was extended.
---
 src/core/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 38beaea..0ba55ec 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -472,7 +472,7 @@ IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& head
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -495,7 +495,7 @@ IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& hea
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -518,7 +518,7 @@ IndexFile::get_out_of_order(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
@@ -568,7 +568,7 @@ IndexFile::get_out_of_order2(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
-- 
2.43.0


From 5cab2166f4e32d7cfff90b2b1a78fe68ce236d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 13/84] fix: use a page of the right size after moving to
 another partition

A time series keeps its in-memory page when it moves on to another
partition. Partitions can have different page sizes, in which case the
old page could be too small for the new one.
---
 src/core/page.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/page.cpp b/src/core/page.cpp
index ea77459..79eeb98 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -213,6 +213,10 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, Page
         m_tsdb = tsdb;
         m_start = from;
 
+        // page sizes may differ
+        std::free(m_page);
+        m_page = nullptr;
+
         // need to locate the last page of this TS
         tsdb->get_last_header_indices(mid, tid, file_idx, header_idx);
         m_page_header.m_next_file = file_idx;
-- 
2.43.0


From 403069876c19c298e36853fd3f4e0a163c1f84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 14/84] fix: reset the out-of-order page after flushing it

The regular page was turned into an out-of-order one instead, and the
flushed out-of-order page was written again the next time.
---
 src/core/ts.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 8876217..ea71515 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -248,10 +248,11 @@ TimeSeries::flush_no_lock(MetricId mid, bool close)
             delete m_ooo_buff;
             m_ooo_buff = nullptr;
         }
-        else if (m_buff != nullptr)
+        else
         {
-            m_buff->update_indices(m_ooo_buff);
-            m_buff->init(mid, m_id, nullptr, true);
+            if (m_buff != nullptr)
+                m_buff->update_indices(m_ooo_buff);
+            m_ooo_buff->init(mid, m_id, nullptr, true);
         }
     }
 
-- 
2.43.0


From cc6fa5bb73d1420577099538b2c05524052d434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 15/84] fix: do not crash on a write request that ends in a
 comment

A comment or check point without a trailing newline made the handler
dereference a null pointer. Comments could also run past the end of
their line, or of the request.
---
 src/core/tsdb.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 86a41e9..8533172 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2503,7 +2503,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
     // parse 1st line with more checks
     while (*curr == '#')
     {
-        while ((*(++curr) != '\n') && (*curr != 0))
+        while ((*curr != '\n') && (*curr != 0))
             curr++;
         if (*curr == 0)
             break;
@@ -2533,7 +2533,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
             success = false;
     }
 
-    if (*curr != 0 && *curr != '\n')
+    if (curr != nullptr && *curr != 0 && *curr != '\n')
         success = success && parse_line_safe(curr, measurement, tags, ts, dps);
 
     if (ts == 0) ts = now;
@@ -2547,6 +2547,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
         if (UNLIKELY(*curr == '#'))
         {
             curr = strchr(curr, '\n');
+            if (curr == nullptr) break;
             curr++;
             continue;
         }
-- 
2.43.0


From a013c3aa8a49b6119a8d56211363ea6320e9867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 16/84] fix: report malformed data points in a JSON array as
 failed

The request was answered with success, although the malformed data point
and everything after it had been dropped.
---
 src/core/dp.cpp   | 3 ++-
 src/core/tsdb.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index d9ea571..b901895 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -115,7 +115,8 @@ char *
 DataPoint::from_json(char* json)
 {
     if (json == nullptr) return nullptr;
-    while (*json != '{') json++;
+    while ((*json != '{') && (*json != 0)) json++;
+    if (*json == 0) return nullptr;
 
     for (json++; *json != '}' && *json != 0; )
     {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 8533172..7b70714 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2365,7 +2365,11 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
         {
             DataPoint dp;
             curr = dp.from_json(curr+1);
-            if (curr == nullptr) break;
+            if (curr == nullptr)
+            {
+                failed++;
+                break;
+            }
 
             if (add_data_point(dp, false))
                 success++;
-- 
2.43.0


From b5302de49c91e28d3d37ec8228ad7746e382b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 17/84] fix: handle requests without parameters

GET requests without a query string crashed the server.
---
 src/core/http.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 7b0a52c..c68e393 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1163,6 +1163,8 @@ HttpRequest::init()
 void
 HttpRequest::parse_params(JsonMap& pairs)
 {
+    if (params == nullptr) return;
+
     std::vector<char*> tokens;
     tokenize(params, '&', tokens);
 
-- 
2.43.0


From 651592a8e1d7d549209c2c72e1072455f6b0e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:40 +0000
Subject: [PATCH 18/84] fix: free the parameters of rejected requests

They were lost for good every time a request was rejected because of a
missing parameter.
---
 src/core/query.cpp | 8 ++++++++
 src/core/tsdb.cpp  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 2ff9177..625f079 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1376,6 +1376,7 @@ QueryExecutor::http_post_api_query_handler(HttpRequest& request, HttpResponse& r
     if (search == map.end())
     {
         const char* errMsg = "Error: POST request doesn't specify parameter 'start'!\n";
+        JsonParser::free_map(map);
         response.init(400, HttpContentType::PLAIN, strlen(errMsg), errMsg);
         return false;
     }
@@ -1408,6 +1409,7 @@ QueryExecutor::http_post_api_query_handler(HttpRequest& request, HttpResponse& r
     if (search == map.end())
     {
         const char* errMsg = "Error: POST request doesn't specify parameter 'queries'!\n";
+        JsonParser::free_map(map);
         response.init(400, HttpContentType::PLAIN, strlen(errMsg), errMsg);
         return false;
     }
@@ -1495,12 +1497,18 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
 
     search = params.find("m");
     if (search == params.end())
+    {
+        JsonParser::free_map(params);
         throw std::runtime_error("Must specify m parameter when performing search/lookup.");
+    }
 
     char buff[MAX_URL_LENGTH];
     bool decode_ok = url_unescape(search->second->to_string(), buff, sizeof(buff));
     if (! decode_ok)
+    {
+        JsonParser::free_map(params);
         throw std::runtime_error("Failed to URL decode search/lookup.");
+    }
 
     Logger::debug("after-decoding of search/lookup: %s; limit=%d", buff, limit);
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 7b70714..51ce06e 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2606,6 +2606,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
     auto search = params.find("type");
     if (search == params.end())
     {
+        JsonParser::free_map(params);
         response.init(400, HttpContentType::PLAIN);
         return false;
     }
@@ -2614,6 +2615,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
     search = params.find("q");
     if (search == params.end())
     {
+        JsonParser::free_map(params);
         response.init(400, HttpContentType::PLAIN);
         return false;
     }
-- 
2.43.0


From ff30b0b332df9d8daac6b370d3d200bf9909ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:48 +0000
Subject: [PATCH 19/84] fix: free the parameters of an admin request without a
 command

---
 src/admin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/admin.cpp b/src/admin.cpp
index 1a107f2..16b01fd 100644
--- a/src/admin.cpp
+++ b/src/admin.cpp
@@ -70,6 +70,8 @@ Admin::http_post_api_admin_handler(HttpRequest& request, HttpResponse& response)
     if (cmd == nullptr)
     {
         const char *msg = "cmd missing";
+        if (params != nullptr)
+            MemoryManager::free_recyclables(params);
         response.init(400, HttpContentType::PLAIN, strlen(msg), msg);
         return false;
     }
-- 
2.43.0


From 4d1dcdc600ed9c56eb5903ee68b98ee52bd27069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 20/84] fix: take the check point snapshot before collecting
 partitions to flush

A partition created between the two was not flushed by the rotation, but
data points written to it were covered by the check point.
---
 src/core/tsdb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 51ce06e..d475492 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3284,6 +3284,10 @@ Tsdb::rotate(TaskData& data)
     std::vector<Tsdb*> tsdbs;
     uint64_t disk_avail = Stats::get_disk_avail();
 
+    // this must come before we collect partitions, or data points written to
+    // a partition created in between could be covered without being flushed
+    CheckPointManager::take_snapshot();
+
     TimeRange range(0, now);
     Tsdb::insts(range, tsdbs);
 
@@ -3306,8 +3310,6 @@ Tsdb::rotate(TaskData& data)
         }
     }
 
-    CheckPointManager::take_snapshot();
-
     uint64_t now_sec = to_sec(now);
     uint64_t thrashing_threshold =
         Config::inst()->get_time(CFG_TSDB_THRASHING_THRESHOLD, TimeUnit::SEC, CFG_TSDB_THRASHING_THRESHOLD_DEF);
-- 
2.43.0


From 02d1c7996db62234b5e7d93c618e295f4aac13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 21/84] fix: skip the data of unknown time series when
 replaying the append log

Only the header was skipped, so the data was taken for the next header.
A gap in the time series ids crashed the replay.
---
 src/utils/append.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index 65c91ad..d8db895 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -165,15 +165,6 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
         //if (! is_ooo)
             //bytes += sizeof(struct rollup_append_entry);
 
-        if (tsv.size() <= tid)
-        {
-            Logger::error("Time series %u in append log, but not present in meta file", tid);
-            continue;
-        }
-
-        TimeSeries *ts = tsv[tid];
-        ASSERT(ts != nullptr);
-
         size = ::fread(buff, bytes, 1, file);
 
         if (size < 1)
@@ -182,6 +173,14 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
             break;
         }
 
+        TimeSeries *ts = (tid < tsv.size()) ? tsv[tid] : nullptr;
+
+        if (ts == nullptr)
+        {
+            Logger::error("Time series %u in append log, but not present in meta file", tid);
+            continue;
+        }
+
         Tsdb *tsdb = Tsdb::inst(tstamp, false);
 
         if (tsdb == nullptr)
-- 
2.43.0


From 6e23d51f33ee4bcc4a1ade9986eb3897e5a8245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 22/84] fix: do not read from an append log that could not be
 opened

---
 src/utils/append.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index d8db895..405ac9f 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -135,8 +135,15 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
     std::string name = file_exists(log_name) ? log_name : tmp_name;
 
     size_t header_size = sizeof(struct append_log_entry);
-    char *buff = MemoryManager::alloc_network_buffer();
     FILE *file = fopen(name.c_str(), "rb");
+
+    if (file == nullptr)
+    {
+        Logger::error("failed to open %s for reading", name.c_str());
+        return;
+    }
+
+    char *buff = MemoryManager::alloc_network_buffer();
     Tsdb *oldest_tsdb = nullptr;
 
     for ( ; ; )
@@ -195,9 +202,7 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
         ts->restore(tsdb, mid, tstamp, offset, start, (uint8_t*)buff, bytes, is_ooo, file_idx, header_idx);
     }
 
-    if (file != nullptr)
-        fclose(file);
-
+    fclose(file);
     rm_file(tmp_name);
     MemoryManager::free_network_buffer(buff);
 
-- 
2.43.0


From fb8fdf4379a174f82483503bbbc69b221e1064d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 23/84] fix: flush the meta file before the append log that
 refers to it is put in place

---
 src/utils/append.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index 405ac9f..fc3c2ed 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -85,12 +85,14 @@ AppendLog::flush_all(TaskData& data)
     fflush(file);
     fclose(file);
 
+    // the log is of no use without the time series it refers to
+    MetaFile::instance()->flush();
+
     // append.tmp => append.log
     rm_file(log_name);
     if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
         Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
 
-    MetaFile::instance()->flush();
     return false;
 }
 
-- 
2.43.0


From 5a94b5451bca15e38935f655133f5ec94fbd422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:47 +0000
Subject: [PATCH 24/84] fix: keep a reference to the partition picked for
 compaction or rollup

It could be purged as soon as the lock on the list of partitions was
released.
---
 src/core/tsdb.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d475492..0d44802 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3490,6 +3490,7 @@ Tsdb::compact(TaskData& data)
             }
 
             tsdb = *it;
+            tsdb->inc_ref_count();  // before it can be purged
             break;
         }
     }
@@ -3499,7 +3500,7 @@ Tsdb::compact(TaskData& data)
         std::lock_guard<std::mutex> guard(tsdb->m_lock);
         //WriteLock guard(tsdb->m_lock);
 
-        if (tsdb->m_ref_count <= 0)
+        if (tsdb->m_ref_count <= 1) // nobody but us
         {
             TimeRange range = tsdb->get_time_range();
 
@@ -3583,6 +3584,8 @@ Tsdb::compact(TaskData& data)
         {
             Logger::debug("[compact] Tsdb busy, not compacting. ref = %d", tsdb->m_ref_count.load());
         }
+
+        tsdb->dec_ref_count();
     }
     else
     {
@@ -3714,6 +3717,7 @@ Tsdb::rollup(TaskData& data)
             }
 
             tsdb = *it;
+            tsdb->inc_ref_count();  // before it can be purged
             break;
         }
     }
@@ -3727,6 +3731,7 @@ Tsdb::rollup(TaskData& data)
 
         Timestamp now_sec = ts_now_sec();
         Timestamp tstamp = tsdb->get_time_range().get_from_sec();
+        tsdb->dec_ref_count();
         std::time_t begin = begin_month(tstamp);
         std::time_t end = end_month(tstamp);
         Timestamp threshold = interactive ? 0 :
-- 
2.43.0


From 140681e46a572fc423e88809ff35e11f964d4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:47 +0000
Subject: [PATCH 25/84] fix: do not collect partitions again when compacting

The partition being compacted was added, and referenced, once more for
every batch. The references were never released.
---
 src/core/query.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 625f079..30313d8 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1247,7 +1247,8 @@ QuerySuperTask::perform(bool lock)
     {
         RollupType rollup = use_rollup();
         bool level2 = is_rollup_level2(rollup);
-        Tsdb::insts(m_time_range, m_tsdbs);
+        if (! m_compact)    // otherwise it was given to us
+            Tsdb::insts(m_time_range, m_tsdbs);
 
         ASSERT(! m_tasks.empty());
 
-- 
2.43.0


From 07492511d007fcd3c53a3e33d5fdd2217abb4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:11 +0000
Subject: [PATCH 26/84] fix: list all metrics before locking the partition to
 compact

---
 src/core/tsdb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 0d44802..5917841 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3497,6 +3497,10 @@ Tsdb::compact(TaskData& data)
 
     if (tsdb != nullptr)
     {
+        // must not be done while holding the lock of the partition
+        std::vector<Mapping*> mappings;
+        Tsdb::get_all_mappings(mappings);
+
         std::lock_guard<std::mutex> guard(tsdb->m_lock);
         //WriteLock guard(tsdb->m_lock);
 
@@ -3520,11 +3524,9 @@ Tsdb::compact(TaskData& data)
                 compacted->m_page_size = g_sys_page_size;
 #endif
 
-                std::vector<Mapping*> mappings;
                 int batch_size =
                     Config::inst()->get_int(CFG_TSDB_COMPACT_BATCH_SIZE, CFG_TSDB_COMPACT_BATCH_SIZE_DEF);
 
-                Tsdb::get_all_mappings(mappings);
                 tsdb->m_index_file.ensure_open(true);
 
                 QuerySuperTask super_task(tsdb);
-- 
2.43.0


From 3718753f8c66aab092f9281bae7822e9f51973da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:13 +0000
Subject: [PATCH 27/84] fix: take the file's lock when referencing a rollup
 file

---
 src/agg/rollup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f3ed6d2..05b1746 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -462,7 +462,7 @@ RollupManager::get_or_create_data_file(MetricId mid, Timestamp tstamp, std::unor
         data_file = search->second;
 
     ASSERT(data_file != nullptr);
-    data_file->inc_ref_count_no_lock();
+    data_file->inc_ref_count();
 
     return data_file;
 }
-- 
2.43.0


From 038ae2ecfc9479fe928414a67f318c141ce6bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:22 +0000
Subject: [PATCH 28/84] fix: write the first line of the meta files out right
 away

The first line is skipped when the files are read. It was only buffered,
so a crash left an empty file that never got one, and the first metric
or time series written later was skipped at the next start.
---
 src/utils/meta.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 3e8addb..f643616 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -198,7 +198,10 @@ MetaFile::open()
         if (m_ts_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
         else if (is_new)    // 1st line: ticktock version
+        {
             fprintf(m_ts_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
+            std::fflush(m_ts_file);    // restore always skips 1st line
+        }
     }
 
     // open metrics file
@@ -216,7 +219,10 @@ MetaFile::open()
         if (m_metrics_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
         else if (is_new)    // 1st line: ticktock version
+        {
             fprintf(m_metrics_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
+            std::fflush(m_metrics_file);    // restore always skips 1st line
+        }
     }
 }
 
-- 
2.43.0


From 05f19fd11d211b1c56714439ea847e293b95ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:22 +0000
Subject: [PATCH 29/84] fix: write a new metric out before its time series

Both files are buffered. With many series under a new metric the series
file was written first, and after a crash the server could not start,
because restored series refer to a metric that is not there.
---
 src/utils/meta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index f643616..40edc4f 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -277,6 +277,7 @@ MetaFile::add_metric(MetricId id, const char *name)
     ASSERT(m_metrics_file != nullptr);
     std::lock_guard<std::mutex> guard(m_lock);
     fprintf(m_metrics_file, "%d %s\n", id, name);
+    std::fflush(m_metrics_file);    // must be on file before any of its time series
 }
 
 void
-- 
2.43.0


From e506deec5516c3f3789f9e299103352e0c59e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:53:05 +0000
Subject: [PATCH 30/84] fix: record the configured number of rollup buckets

The settings file of the rollup data always recorded the default number of
buckets, so a configured number was lost.
---
 src/utils/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 06865dd..7631b1a 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -92,7 +92,8 @@ Config::init()
     }
     else
     {
-        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS, std::to_string(CFG_TSDB_ROLLUP_BUCKETS_DEF));
+        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS,
+            std::to_string(m_instance->get_int(CFG_TSDB_ROLLUP_BUCKETS, CFG_TSDB_ROLLUP_BUCKETS_DEF)));
     }
 
     cfg.persist();
-- 
2.43.0


From 831663af492df87f6284f27e301840786848c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:53:05 +0000
Subject: [PATCH 31/84] fix: give back data containers of a query that was cut
 short

When an exception ended a query early the task went back to its pool with
the containers it still held. They then took part in the next query that
reused the task.
---
 src/core/query.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 30313d8..841b82b 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -926,7 +926,11 @@ QueryTask::recycle()
     m_dps.clear();
     m_dps.shrink_to_fit();
     m_results.recycle();
-    ASSERT(m_data.empty());
+
+    // not empty if the query was cut short by an exception
+    for (DataPointContainer *container: m_data)
+        MemoryManager::free_recyclable(container);
+    m_data.clear();
 
     m_ts = nullptr;
 
-- 
2.43.0


From 51cd83389295c4c0cf2be2f04a32ab3f64a8981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:47 +0000
Subject: [PATCH 32/84] fix: give back the request buffer when the response
 could not be sent

The buffer of a complete request was neither freed nor kept when sending
the response failed, so every client that went away early cost one buffer.
---
 src/core/http.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index c68e393..79508a4 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -267,6 +267,7 @@ HttpServer::recv_http_data(TaskData& data)
     int len = 0;
     bool conn_error = false;    // try to keep-alive
     bool free_buff = true;
+    bool sent = true;           // false if the response is still needed
 
     while (len < buff_size)
     {
@@ -340,7 +341,7 @@ HttpServer::recv_http_data(TaskData& data)
             if (! process_request(conn->request, conn->response))
                 conn_error = true;
 
-            free_buff = HttpServer::send_response(conn);
+            sent = HttpServer::send_response(conn);
 
             // This needs to be done AFTER send_response(),
             // or you are risking 2 threads both sending responses on the same fd.
@@ -364,7 +365,8 @@ HttpServer::recv_http_data(TaskData& data)
     {
         conn->buff = nullptr;
         MemoryManager::free_network_buffer(buff);
-        conn->response.recycle();
+        if (sent)
+            conn->response.recycle();
     }
 
     // closing the fd will deregister it from epoll
-- 
2.43.0


From 052b679e74a6252aa447c6621aa1cad0ef9af16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:47 +0000
Subject: [PATCH 33/84] fix: start each response of a connection with a fresh
 buffer

After a request that arrived in parts the response kept its buffer together
with a position inside it. The next response was written from that position
with the size of the whole buffer as the limit.
---
 src/core/http.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 79508a4..6f3234b 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -511,6 +511,7 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
     {
         conn->buff = nullptr;
         MemoryManager::free_network_buffer(buff);
+        conn->response.recycle();
     }
 
     // closing the fd will deregister it from epoll
@@ -602,6 +603,7 @@ HttpServer::resend_response(TaskData& data)
             MemoryManager::free_network_buffer(conn->buff);
             conn->buff = nullptr;
         }
+        conn->response.recycle();
     }
     --conn->pending_tasks;
     return success;
-- 
2.43.0


From ea66b760015809f5021c4e9eabf5a1e52e561a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:15 +0000
Subject: [PATCH 34/84] fix: close the read end of a listener's pipe with the
 listener

The pipe a listener is woken up by has two ends. Only the write end was closed when the listener stopped; the read end stayed open.
---
 src/core/tcp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index b1a32a3..3c48f30 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -874,6 +874,7 @@ TcpListener::TcpListener() :
 TcpListener::~TcpListener()
 {
     close_conns();
+    if (m_pipe_fds[0] != -1) close(m_pipe_fds[0]);
     if (m_conns != nullptr) free(m_conns);
 }
 
-- 
2.43.0


From d1b60c016ef6e51a41ebcbe7526fa86e72736300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:15 +0000
Subject: [PATCH 35/84] fix: check the size left before reading a daily rollup
 record

The series id takes bytes 1 to 4, so a size of 4 is one byte short. The byte holding the day was read without any check.
---
 src/core/compress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index c199552..24fa668 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -2706,7 +2706,7 @@ RollupCompressor_v1::uncompress3(uint8_t *buff, int size, struct rollup_entry_ex
 
     if (flag & 0x80)            // tid
     {
-        if (size < 4) return 0;
+        if ((size - len) < 4) return 0;
         entry->tid = uncompress_uint32(buff+len);
         len += 4;
         ASSERT(len == 5);
@@ -2729,6 +2729,7 @@ RollupCompressor_v1::uncompress3(uint8_t *buff, int size, struct rollup_entry_ex
     ASSERT(entry->cnt > 0);
 
     // tstamp (0-365)
+    if ((size - len) < 1) return 0;
     entry->tstamp = (Timestamp)buff[len];
     if (flag & 0x20) entry->tstamp += 256;
     entry->tstamp *= 24 * 3600;
-- 
2.43.0


From 00179fa1871392213e395fb3d8cb87bc21085084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:26 +0000
Subject: [PATCH 36/84] fix: keep the last timestamp of a page when a data
 point does not fit

The v2 and v3 compressors recorded the timestamp of a data point before its
value was written. When the page turned out to be full, the data point was
taken back but its timestamp stayed.
---
 src/core/compress.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index 24fa668..27c686c 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -825,13 +825,12 @@ Compressor_v3::compress(Timestamp timestamp, double value)
         int64_t delta_of_delta = (uint64_t)delta - (uint64_t)m_prev_delta;
         compress4(delta_of_delta, m_bitset);
 
-        m_prev_tstamp = timestamp;
-        m_prev_delta = delta;
-
         // Value next
         double v = value - m_prev_value;
         compress4(v, m_precision, m_bitset);
 
+        m_prev_tstamp = timestamp;
+        m_prev_delta = delta;
         m_dp_count++;
         m_prev_value = value;
     }
@@ -1058,9 +1057,6 @@ Compressor_v2::compress(Timestamp timestamp, double value)
             m_bitset.append(reinterpret_cast<uint8_t*>(&dod_be), 33, 64-33);
         }
 
-        m_prev_tstamp = timestamp;
-        m_prev_delta = delta;
-
         // Value next
         uint64_t prev = htobe64(*reinterpret_cast<uint64_t*>(&m_prev_value));
         uint64_t curr = htobe64(*reinterpret_cast<uint64_t*>(&value));
@@ -1105,6 +1101,8 @@ Compressor_v2::compress(Timestamp timestamp, double value)
             }
         }
 
+        m_prev_tstamp = timestamp;
+        m_prev_delta = delta;
         m_dp_count++;
         m_prev_value = value;
     }
-- 
2.43.0


From fc87b7164928c1731a4b046bbdb16eee8d1dbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:26 +0000
Subject: [PATCH 37/84] fix: reject a bit index just past the end of a bit set

BitSet::set() and BitSet::test() accepted an index in the byte after the last
one.
---
 src/utils/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3be81f2..4fab787 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -127,7 +127,7 @@ BitSet::set(size_t idx)
     size_t idx_byte = idx / 8;
     unsigned int off = idx % 8;
     uint8_t *cursor = m_bits + idx_byte;
-    if (cursor > m_end)
+    if (cursor >= m_end)
         throw std::out_of_range("index out of range");
     *cursor |= 1 << (7 - off);
 }
@@ -140,7 +140,7 @@ BitSet::test(size_t idx)
     size_t idx_byte = idx / 8;
     unsigned int off = idx % 8;
     uint8_t *cursor = m_bits + idx_byte;
-    if (cursor > m_end)
+    if (cursor >= m_end)
         throw std::out_of_range("index out of range");
     return ((*cursor) & 1 << (7 - off)) != 0;
 }
-- 
2.43.0


From 57adeab4447b8c0014129082226203d2cc8052f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 38/84] fix: answer a request with a negative length only once

---
 src/core/http.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 6f3234b..4207f77 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -317,13 +317,7 @@ HttpServer::recv_http_data(TaskData& data)
 
         if (conn->request.header_ok)
         {
-            if (UNLIKELY(conn->request.length < 0))
-            {
-                HttpServer::send_response(conn, 411);
-                conn_error = true;
-                Logger::http("request length negative, will close connection", fd);
-            }
-            else if (conn->request.close)
+            if (conn->request.close)
             {
                 conn_error = true;
                 Logger::http("will close connection", fd);
@@ -336,7 +330,13 @@ HttpServer::recv_http_data(TaskData& data)
         // If not, we need to stop right here, and inform
         // the listener to forward the rest of the request
         // our way.
-        if (conn->request.is_complete())
+        if (UNLIKELY(conn->request.length < 0))
+        {
+            sent = HttpServer::send_response(conn, 411);
+            conn_error = true;
+            Logger::http("request length negative, will close connection", fd);
+        }
+        else if (conn->request.is_complete())
         {
             if (! process_request(conn->request, conn->response))
                 conn_error = true;
-- 
2.43.0


From c4c2b447cd1bad31546cc7fb0d020976fcb3d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 39/84] fix: reject a put or write request without content

---
 src/core/tsdb.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5917841..0f5805f 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2322,7 +2322,12 @@ Tsdb::insts(const TimeRange& range, std::vector<Tsdb*>& tsdbs)
 bool
 Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2338,7 +2343,12 @@ Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2388,7 +2398,12 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_plain()...");
 
     char *curr = request.content;
@@ -2489,7 +2504,12 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_influx()...");
 
     char *curr = request.content;
-- 
2.43.0


From 592cf59244eda6b32741b4ce877492dc0ea57db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 40/84] fix: do not answer a request that is too large with the
 id of the previous one

---
 src/core/http.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 4207f77..73d02ba 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -296,6 +296,7 @@ HttpServer::recv_http_data(TaskData& data)
 
     if (len >= buff_size)
     {
+        conn->request.init();   // the previous request is gone
         HttpServer::send_response(conn, 413);
         conn_error = true;
         Logger::debug("received request of size %d, returning 413", len);
-- 
2.43.0


From a42eb6887d0673b4d9c2480ad04cf819378d3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 41/84] fix: leave room behind uncompressed content, as behind
 content received

---
 src/core/http.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 73d02ba..ef9aaf2 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -829,7 +829,7 @@ HttpServer::process_request(HttpRequest& request, HttpResponse& response)
             if (request.encoding != 0)
             {
                 buff = MemoryManager::alloc_network_buffer();
-                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size()))
+                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size()-8))
                     throw std::runtime_error("failed to uncompress content");
                 Logger::http("%s", 0, request.content);
             }
@@ -1235,7 +1235,10 @@ HttpRequest::uncompress(char *buff, size_t size)
         }
 
         if (strm.avail_in != 0)
+        {
+            inflateEnd(&strm);
             return false;
+        }
 
         length = size - strm.avail_out;
         content = buff;
-- 
2.43.0


From f413ffb66c2401ffcc38e57f838f1f1e1d66ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 42/84] fix: keep the end of a query response within its buffer

---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 841b82b..1aa6cb0 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1651,7 +1651,7 @@ QueryExecutor::prepare_response(std::vector<QueryResults*>& results, HttpRespons
 
         status = false;
     }
-    else if (n >= size)
+    else if (n >= (size-1))
     {
         Logger::error("response too large, %d >= %d", n, size);
         response.init(413, HttpContentType::PLAIN, 0, nullptr);
-- 
2.43.0


From bb5daba4391cd92b0d314dbae7c3a7806470529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:32 +0000
Subject: [PATCH 43/84] fix: do not send more bytes than the buffer of a
 response holds

---
 src/core/http.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index ef9aaf2..387014d 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1045,6 +1045,9 @@ HttpResponse::init(uint16_t code, HttpContentType type, size_t length, const cha
             (body == nullptr) ? "" : body);
     }
 
+    if (response_size >= buffer_size)
+        init(500, HttpContentType::PLAIN);  // does not fit
+
 #ifdef _DEBUG
     if (content_length > 0)
     {
-- 
2.43.0


From 66ff2786be34c05e1d44f5abe9f96684d662eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:12:40 +0000
Subject: [PATCH 44/84] fix: stop at the end of the text when parsing data
 points (plain and JSON)

---
 src/core/dp.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index b901895..2794e75 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -135,6 +135,7 @@ DataPoint::from_json(char* json)
         else if (strcmp(key, "tags") == 0)
         {
             while ((*json != '{') && (*json != 0)) json++;
+            if (*json == 0) return nullptr;
             json = next_tags(json);
             if (json == nullptr) return nullptr;
         }
@@ -155,7 +156,7 @@ DataPoint::from_json(char* json)
         while (isspace(*json)) json++;
     }
 
-    return json + 1;
+    return (*json == 0) ? nullptr : (json + 1);
 }
 
 // Input format:
@@ -174,19 +175,23 @@ DataPoint::from_plain(char* &text)
         do
         {
             if (*++text == ' ') *text = '_';
-        } while ((*text != '"') && (*text != '\n'));
+        } while ((*text != '"') && (*text != '\n') && (*text != 0));
+        if (*text != '"') return false;
         *text++ = 0;
     }
     else
-        text = (char*)rawmemchr((void*)text, ' ');
+        while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+    if (*text != ' ') return false;
     *text++ = 0;
     m_timestamp = (Timestamp)std::atoll(text);
     //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
-    text = (char*)rawmemchr((void*)text, ' ');
+    while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+    if (*text != ' ') return false;
     text++;
     if (*text == '"') text++;
     m_value = std::atof(text);
-    while ((*text != ' ') && (*text != '\n')) text++;
+    while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+    if (*text == 0) return true;
     if (*text == '\n') { text++; return true; }
     m_raw_tags = ++text;
     // Converting <tag1>=<val1> <tag2=<val2> ... into
@@ -196,8 +201,11 @@ DataPoint::from_plain(char* &text)
         if (*text == ' ') *text = ',';
         text++;
     }
-    *text++ = 0;
-    if (UNLIKELY(*(text-2) == '\r')) *(text-2) = 0;
+    if (*text != 0)
+    {
+        *text++ = 0;
+        if (UNLIKELY(*(text-2) == '\r')) *(text-2) = 0;
+    }
     return true;
 }
 
@@ -238,8 +246,8 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
     else if (std::isdigit(*curr))
     {
         value = curr;
-        double dbl;
-        curr = next_double(curr, dbl);
+        while ((*curr != ',') && (*curr != '}') && (*curr != 0)) curr++;
+        if (*curr == 0) return nullptr;
         if (*curr == '}') quote = true;
         *curr = 0;
         return curr+1;
@@ -248,6 +256,7 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
     {
         value = curr;
         for (curr; std::isalpha(*curr); curr++) /* do nothing */;
+        if (*curr == 0) return nullptr;
         if (*curr == '}') quote = true;
         *curr = 0;
         for (curr++; std::isspace(*curr); curr++) /* do nothing */;
@@ -270,12 +279,12 @@ char *
 DataPoint::next_double(char* json, double &number)
 {
     //while (! std::isdigit(*json) && (*json != '.') && (*json != '+') && (*json != '-') && (*json != '\n')) json++;
-    while ((*json != ':') && (*json != '\n')) json++;
+    while ((*json != ':') && (*json != '\n') && (*json != 0)) json++;
     if (*json == ':') json++;
     while ((*json == '"') || std::isspace(*json)) json++;
     number = std::atof(json);
     //while (std::isdigit(*json) || (*json == '.') || (*json == '+') || (*json == '-') || (*json == 'e') || (*json == 'n') || (*json == 'a') || (*json == 'N') || (*json == 'A')) json++;
-    while ((*json != ',') && (*json != '}')) json++;
+    while ((*json != ',') && (*json != '}') && (*json != 0)) json++;
     //if (*json == '"') json++;   // in case the number is quoted
     return json;
 }
@@ -332,7 +341,7 @@ bool
 DataPoint::parse_raw_tags()
 {
     if (m_raw_tags == nullptr) return false;
-    if (m_raw_tags[1] == 0 && m_raw_tags[0] == ';') return true;
+    if (m_raw_tags[0] == ';' && m_raw_tags[1] == 0) return true;
 
     char *key, *val, *comma, *eq;
 
-- 
2.43.0


From ce32b7d9c6795808d11f24ff9e1198946d3b056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:12:40 +0000
Subject: [PATCH 45/84] fix: stop at the end of the line when parsing the line
 protocol

---
 src/core/tsdb.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 0f5805f..ac702f1 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -530,7 +530,7 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
 
         std::strncpy(original, raw_tags, MAX_TOTAL_TAG_LENGTH);
 
-        if (raw_tags[1] == 0)   // no tags
+        if (raw_tags[0] != 0 && raw_tags[1] == 0)   // no tags
         {
             ordered[0] = raw_tags[0];
             ordered[1] = 0;
@@ -2747,7 +2747,7 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
     // look for first comma or space
     for ( ; ; )
     {
-        if (*line == '\\')
+        if (*line == '\\' && line[1] != 0)
         {
             *line++ = '_';
             switch (*line)
@@ -2759,12 +2759,15 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
             }
             line++;
         }
-        else if ((*line == ',') || (*line == ' '))
+        else if ((*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
             break;
         else
             line++;
     }
 
+    if ((*line != ',') && (*line != ' '))
+        return false;
+
     if (*line == ',')
     {
         *line = 0;  // end of measurement
@@ -2772,7 +2775,7 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
 
         for ( ; ; )
         {
-            if (*line == '\\')
+            if (*line == '\\' && line[1] != 0)
             {
                 *line++ = '_';
                 switch (*line)
@@ -2784,13 +2787,16 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
                 }
                 line++;
             }
-            else if (*line == ' ')
+            else if ((*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
     }
 
+    if (*line != ' ')
+        return false;
+
     *line = 0;
 
     // ' <field_key>=<field_value>[,<field_key>=<field_value>] [<timestamp>]'
@@ -2804,7 +2810,7 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
         // look for first equal sign
         for ( ; ; )
         {
-            if (*line == '\\')
+            if (*line == '\\' && line[1] != 0)
             {
                 *line++ = '_';
                 switch (*line)
@@ -2816,11 +2822,15 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
                 }
                 line++;
             }
-            else if (*line == '=')
+            else if ((*line == '=') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
+
+        if (*line != '=')
+            return false;
+
         *line++ = 0;  // end of field name
         dp.set_raw_tags(field);    // use raw_tags to remember field name
         dp.set_value(std::atof(line));
@@ -2860,7 +2870,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
     // find first comma or white space
     for ( ; ; )
     {
-        if (*line == '\\')
+        if (*line == '\\' && line[1] != 0)
         {
             *line++ = '_';
             switch (*line)
@@ -2889,7 +2899,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
 
         for ( ; ; )
         {
-            if (*line == '\\')
+            if (*line == '\\' && line[1] != 0)
             {
                 *line++ = '_';
                 switch (*line)
@@ -2924,7 +2934,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
         // look for first equal sign
         for ( ; ; )
         {
-            if (*line == '\\')
+            if (*line == '\\' && line[1] != 0)
             {
                 *line++ = '_';
                 switch (*line)
-- 
2.43.0


From 07c070eea4474bf2994fc2032977987216fb25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:12:40 +0000
Subject: [PATCH 46/84] fix: stop at the end of the text when parsing JSON maps
 and arrays

---
 src/utils/json.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index c740cff..94e4538 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -27,6 +27,16 @@ namespace tt
 {
 
 
+// return position of the closing quote
+static char *
+find_quote(char *json)
+{
+    json = std::strchr(json, '"');
+    if (json == nullptr)
+        throw std::runtime_error("Malformatted JSON: missing closing quote");
+    return json;
+}
+
 char *
 JsonParser::parse_map(char *json, JsonMap& map, char delim)
 {
@@ -67,6 +77,7 @@ JsonParser::parse_array(char *json, JsonArray& array)
         if (*json == ']') { json++; break; }
         if (*json == ',') json++;
         while (std::isspace(*json)) json++;
+        if (*json == 0) break;
 
         JsonValue *value =
             (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
@@ -74,7 +85,7 @@ JsonParser::parse_array(char *json, JsonArray& array)
         if (*json == '"')
         {
             char *str = ++json;
-            while (*json != '"') json++;
+            json = find_quote(json);
             *json = 0;
             json++;
             value->set_value(str);
@@ -103,7 +114,7 @@ JsonParser::parse_array(char *json, JsonArray& array)
         {
             double dbl = atof(json);
             value->set_value(dbl);
-            do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
+            do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}') && (*json != 0));
         }
 
         array.push_back(value);
@@ -119,12 +130,17 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
 
     while (std::isspace(*json)) json++;
     ASSERT(*json == '"');
+    if (*json == 0)
+        throw std::runtime_error("Malformatted JSON kv: missing key");
     char *key = ++json;
-    while (*json != '"') json++;
+    json = find_quote(json);
     *json = 0;
     do { json++; } while (std::isspace(*json));
     ASSERT(*json == delim);
-    do { json++; } while (std::isspace(*json));
+    if (*json != 0)
+        do { json++; } while (std::isspace(*json));
+    if (*json == 0)
+        throw std::runtime_error(std::string("Malformatted JSON kv: ") + key);
 
     JsonValue *value =
         (JsonValue*)MemoryManager::alloc_recyclable(RecyclableType::RT_JSON_VALUE);
@@ -132,7 +148,7 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
     if (*json == '"')
     {
         value->set_value(++json);
-        while (*json != '"') json++;
+        json = find_quote(json);
         *json = 0;
         json++;
     }
@@ -160,7 +176,7 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
     {
         double dbl = atof(json);
         value->set_value(dbl);
-        do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
+        do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}') && (*json != 0));
     }
 
     pair.first = key;
@@ -198,6 +214,8 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
+    if (*json == 0)
+        throw std::runtime_error("Malformatted JSON kv: missing key");
     char *key = json++;
     while ((*json != delim) && !std::isspace(*json) && (*json != 0)) json++;
     if (UNLIKELY(*json == 0))
@@ -232,8 +250,8 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
     else
     {
         value->set_value(json);
-        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}')) json++;
-        if ((*json != ',') && (*json != ']') && (*json != '}'))
+        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}') && (*json != 0)) json++;
+        if ((*json != 0) && (*json != ',') && (*json != ']') && (*json != '}'))
         {
             *json = 0;
             json++;
-- 
2.43.0


From 16040d0bf072691275215e813e4d609d7c86f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 47/84] fix: close the connection when a line is longer than
 the receive buffer

---
 src/core/tcp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 3c48f30..2e8a11c 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -477,6 +477,14 @@ TcpServer::recv_tcp_data(TaskData& data)
         }
     }
 
+    if (len >= buff_size)
+    {
+        Logger::error("received a line longer than %d, closing connection", (int)buff_size);
+        conn_error = true;
+        again = false;
+        len = 0;
+    }
+
     if (again && (conn->pending_tasks <= 1))
         conn->listener->resubmit_by_responder('t', conn);
 
-- 
2.43.0


From 9d7dad0b0e984fb0be2547aebd4027b4f298b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 48/84] fix: refuse a data point that has no metric

---
 src/core/tsdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index ac702f1..2b90e6e 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1521,6 +1521,7 @@ Tsdb::get_or_create_metric(BucketId bid)
 bool
 Tsdb::add_data_point(DataPoint& dp, bool forward)
 {
+    if (UNLIKELY(dp.get_metric() == nullptr)) return false;
     Mapping *mapping = get_or_add_mapping(dp.get_metric());
     if (mapping == nullptr) return false;
     return mapping->add_data_point(dp, forward);
-- 
2.43.0


From 0c42a1aa58701689d3ee961657b5812e763cb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 49/84] fix: skip blank lines in a plain put request instead of
 dropping the rest

---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 2b90e6e..3f9c7df 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2447,7 +2447,7 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
     {
         DataPoint dp;
 
-        if (std::isspace(*curr)) break;
+        if (std::isspace(*curr)) { curr++; continue; }
         if (UNLIKELY(std::strncmp(curr, "put ", 4) != 0))
         {
             if (std::strncmp(curr, "version\n", 8) == 0)
-- 
2.43.0


From f0edede5ec3b6928b8088bd2dfb69ac47adfd620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 50/84] fix: skip blank lines and check points in a write
 request instead of dropping the rest

---
 src/core/tsdb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 3f9c7df..badb605 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2594,10 +2594,12 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
 
             if (curr == nullptr || *curr == 0)
                 break;
+            continue;
         }
-        else if (UNLIKELY(curr[0] == 0 || curr[0] == '\n' || curr[0] == '\r'))
+        else if (UNLIKELY(curr[0] == '\n' || curr[0] == '\r'))
         {
-            break;
+            curr++;     // skip blank line
+            continue;
         }
 
         tags = nullptr;
-- 
2.43.0


From 41dc6419ea6941f70107c5e31ede1e9909b11c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 51/84] fix: move on past an empty result when calculating
 rates

---
 src/core/query.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 1aa6cb0..575352b 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -476,7 +476,12 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
         {
             auto result = *it;
 
-            if (result->empty()) continue;
+            if (result->empty())
+            {
+                it++;
+                continue;
+            }
+
             m_rate_calculator->calculate(result->get_dps());
 
             if (result->empty())
-- 
2.43.0


From df4a95b42129708547beb3c8a65ce036d53e0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 52/84] fix: take the drop-resets option of a rate from its own
 position

---
 src/core/query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 575352b..c11582f 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -277,9 +277,9 @@ Query::Query(JsonMap& map, StringBuffer& strbuf) :
                 reset_value = std::stoull(opts[2], &pos, 10);
             }
 
-            if ((opts.size() > 3) && (! opts[2].empty()))
+            if ((opts.size() > 3) && (! opts[3].empty()))
             {
-                drop_resets = ((opts[2].front() == 't') || (opts[2].front() == 'T'));
+                drop_resets = ((opts[3].front() == 't') || (opts[3].front() == 'T'));
             }
 
             m_rate_calculator =
-- 
2.43.0


From a603dffb6c619ad48c45f29e5f544c9209876993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 53/84] fix: calculate rates per second in the unit of the
 query's timestamps

---
 include/rate.h     | 2 +-
 src/agg/rate.cpp   | 4 ++--
 src/core/query.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/rate.h b/include/rate.h
index 66b73d5..2fd8cb0 100644
--- a/include/rate.h
+++ b/include/rate.h
@@ -31,7 +31,7 @@ class RateCalculator : public Recyclable
 {
 public:
     void init(bool counter, bool drop_resets, uint64_t counter_max = UINT64_MAX, uint64_t reset_value = 0);
-    void calculate(DataPointVector& dps);   // calc in-place
+    void calculate(DataPointVector& dps, bool ms);  // calc in-place
 
 private:
     bool m_counter;
diff --git a/src/agg/rate.cpp b/src/agg/rate.cpp
index 358dd99..020df42 100644
--- a/src/agg/rate.cpp
+++ b/src/agg/rate.cpp
@@ -36,7 +36,7 @@ RateCalculator::init(bool counter, bool drop_resets, uint64_t counter_max, uint6
 }
 
 void
-RateCalculator::calculate(DataPointVector& dps)
+RateCalculator::calculate(DataPointVector& dps, bool ms)
 {
     if (dps.empty()) return;
 
@@ -55,7 +55,7 @@ RateCalculator::calculate(DataPointVector& dps)
         double ts_delta_secs = (double)(t1 - t0);
         double val_delta = v1 - v0;
 
-        if (g_tstamp_resolution_ms) ts_delta_secs /= 1000.0;
+        if (ms) ts_delta_secs /= 1000.0;
 
         if (m_counter && (val_delta < 0))
         {
diff --git a/src/core/query.cpp b/src/core/query.cpp
index c11582f..690853c 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -482,7 +482,7 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
                 continue;
             }
 
-            m_rate_calculator->calculate(result->get_dps());
+            m_rate_calculator->calculate(result->get_dps(), m_ms);
 
             if (result->empty())
             {
-- 
2.43.0


From 4a48d79a3ca8eb9cb5d1006950093a1eddb46ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:48:28 +0000
Subject: [PATCH 54/84] fix: do not list aggregators that are not supported

---
 src/agg/aggregate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg/aggregate.cpp b/src/agg/aggregate.cpp
index 7ba392e..34cd1cb 100644
--- a/src/agg/aggregate.cpp
+++ b/src/agg/aggregate.cpp
@@ -33,7 +33,7 @@ namespace tt
 // Supported aggregators (Note that we support an p\d{2,3} percentile as aggregator);
 // Should make it configurable. (TODO)
 const char *SUPPORTED_AGGREGATORS =
-    "[\"avg\",\"bottom1\",\"bottom3\",\"bottom5\",\"bottom9\",\"count\",\"dev\",\"first\",\"last\",\"max\",\"min\",\"none\",\"p50\",\"p90\",\"p95\",\"p98\",\"p99\",\"p999\",\"sum\",\"top1\",\"top3\",\"top5\",\"top9\"]";
+    "[\"avg\",\"bottom1\",\"bottom3\",\"bottom5\",\"bottom9\",\"count\",\"dev\",\"max\",\"min\",\"none\",\"p50\",\"p90\",\"p95\",\"p98\",\"p99\",\"p999\",\"sum\",\"top1\",\"top3\",\"top5\",\"top9\"]";
 
 Aggregator *
 Aggregator::create(const char *aggregate)
-- 
2.43.0


From 4ea2a2e9016b096eb721ab090abc9e6fab1d3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 55/84] fix: include buffered points at the very end of the
 query range

---
 src/core/ts.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index ea71515..153d3a0 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -434,7 +434,8 @@ TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataP
     {
         TimeRange r = m_buff->get_time_range();
 
-        if (range.has_intersection(r))
+        // the end of the query range is inclusive
+        if (range.has_intersection(r) || (range.in_range(r.get_from()) == 0))
         {
             PageIndex page_idx = 0;
 
@@ -457,7 +458,8 @@ TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataP
     {
         TimeRange r = m_ooo_buff->get_time_range();
 
-        if (range.has_intersection(r))
+        // the end of the query range is inclusive
+        if (range.has_intersection(r) || (range.in_range(r.get_from()) == 0))
         {
             PageIndex page_idx = 0;
 
-- 
2.43.0


From 85f15fba33959bc1688222ac62e6b76556e3d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 56/84] fix: keep the search lookup answer within the response
 buffer

---
 src/core/query.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 690853c..801fce4 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1580,24 +1580,32 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
 
         // tags
         for (auto tag = tags.get_tags(); tag != nullptr; tag = tag->next())
+        {
+            if (n >= size) break;
             n += snprintf(resp_buff+n, size-n, "{\"key\":\"%s\",\"value\":\"%s\"},", tag->m_key, tag->m_value);
+        }
 
         // remove last comma
         if (tags.get_tags() != nullptr) n--;
-        n += snprintf(resp_buff+n, size-n, "],\"results\":[");
+        if (n < size)
+            n += snprintf(resp_buff+n, size-n, "],\"results\":[");
 
         // results
         for (auto ts: tsv)
         {
             if (i++ < index) continue;
             if (l++ >= limit) break;
+            if (n >= size) break;
 
             n += snprintf(resp_buff+n, size-n, "{\"tsuid\":\"%09X\",\"metric\":\"%s\",\"tags\":{",
                 ts->get_id(), metric);
 
             Tag *tags = ts->get_tags();
             for (auto tag = tags; tag != nullptr; tag = tag->next())
+            {
+                if (n >= size) break;
                 n += snprintf(resp_buff+n, size-n, "\"%s\":\"%s\",", tag->m_key, tag->m_value);
+            }
 
             if (tags != nullptr)
             {
@@ -1605,15 +1613,19 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
                 Tag::free_list(tags, false);
             }
 
-            n += snprintf(resp_buff+n, size-n, "}},");
+            if (n < size)
+                n += snprintf(resp_buff+n, size-n, "}},");
         }
 
         // remove last comma
-        if (! tsv.empty()) n--;
-        n += snprintf(resp_buff+n, size-n, "]}");
-        ASSERT((n+1) < size);
+        if ((n < size) && (resp_buff[n-1] == ',')) n--;
+        if (n < size)
+            n += snprintf(resp_buff+n, size-n, "]}");
 
-        response.init(200, HttpContentType::JSON, n);
+        if (n < size)
+            response.init(200, HttpContentType::JSON, n);
+        else
+            response.init(413, HttpContentType::PLAIN, 0, nullptr);
     }
 
     return true;
-- 
2.43.0


From e66d52bdc9d7d98eb88ee1773053c42a4d971997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 57/84] fix: test for room before the comma after a map value

---
 src/utils/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index 94e4538..759b844 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -338,7 +338,8 @@ JsonParser::to_json(JsonMap& map, char *buff, size_t size)
                 break;
         }
 
-        n += snprintf(buff+n, size-n, ",");
+        if (size > n)
+            n += snprintf(buff+n, size-n, ",");
         if (n >= size) break;
     }
 
-- 
2.43.0


From 560f44782ca8580d9db50d7edfe357e7117b922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 58/84] fix: end the text of a data point at the end of its
 buffer

---
 src/core/dp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index 2794e75..2fe208f 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -378,7 +378,7 @@ DataPoint::c_str(char* buff) const
         tag = tag->next();
     }
 
-    buff[size-1] = 0;
+    buff[c_size()-1] = 0;
     return buff;
 }
 
-- 
2.43.0


From 3269acfdd139e87410a377bdf430b9379abcf157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 59/84] fix: keep check points within the buffer they are
 printed or read into

---
 src/core/cp.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 55ebf40..159c753 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -58,7 +58,8 @@ CheckPointManager::init()
     while (std::getline(is, line))
     {
         char buff[1024];
-        std::strncpy(buff, line.c_str(), sizeof(buff));
+        std::strncpy(buff, line.c_str(), sizeof(buff)-1);
+        buff[sizeof(buff)-1] = 0;
         CheckPointManager::add(buff);
     }
 
@@ -132,7 +133,11 @@ CheckPointManager::get_persisted(const char *leader, char *buff, int size)
 
             int len;
             len = get_persisted_of(it->first, it->second, &buff[idx], size);
-            ASSERT(len < size);
+            if (len <= 0)   // does not fit
+            {
+                if (idx > 1) idx--;
+                break;
+            }
             idx += len;
             size -= len;
             if (size <= 1) break;
@@ -160,14 +165,15 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
     int len = 0;
 
     len = snprintf(buff, size, "{\"leader\":\"%s\",\"channels\":[", leader);
+    if (size <= len) return 0;  // does not fit
     size -= len;
-    ASSERT(size >= 0);
 
     for (auto it = map.begin(); it != map.end(); it++)
     {
         if (size <= 1) break;
         int n = snprintf(&buff[len], size, "{\"channel\":\"%s\",\"checkpoint\":\"%s\"},",
             it->first, it->second.c_str());
+        if (size <= n) break;   // does not fit
         len += n;
         size -= n;
     }
@@ -179,8 +185,9 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
         size++;
     }
 
-    len += snprintf(&buff[len], size, "]}");
-    return len;
+    int n = snprintf(&buff[len], size, "]}");
+    if (size <= n) return 0;    // does not fit
+    return len + n;
 }
 
 void
-- 
2.43.0


From 59b29bd2b361171353099071844b03905c50f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 60/84] fix: test for room before the closing brace of the
 configuration

---
 src/utils/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 7631b1a..a470861 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -651,7 +651,8 @@ Config::c_str(char *buff, size_t size)
         }
     }
 
-    std::snprintf(&buff[idx], size-idx, "}");
+    if (size > idx)
+        std::snprintf(&buff[idx], size-idx, "}");
     return buff;
 }
 
-- 
2.43.0


From 47e3fda070fbbe0a5fb6dbae5699985bec4c55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 61/84] fix: end the copy of the downsampler specification

---
 src/agg/down.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 0a88f4f..82a931c 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -138,7 +138,8 @@ Downsampler::create(const char *downsample, const TimeRange& range, bool ms)
     }
 
     char tmp[64];
-    std::strncpy(tmp, downsample, sizeof(tmp));
+    std::strncpy(tmp, downsample, sizeof(tmp)-1);
+    tmp[sizeof(tmp)-1] = 0;
     std::vector<char*> tokens;
 
     tokenize(tmp, '-', tokens);
-- 
2.43.0


From f26167e5b53199a169fabfe7c5c2aa6aba8460d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 62/84] fix: end the copy of the tags kept while parsing

---
 src/core/tsdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index badb605..2f4cac9 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -529,6 +529,7 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
         char original[MAX_TOTAL_TAG_LENGTH+1];
 
         std::strncpy(original, raw_tags, MAX_TOTAL_TAG_LENGTH);
+        original[MAX_TOTAL_TAG_LENGTH] = 0;
 
         if (raw_tags[0] != 0 && raw_tags[1] == 0)   // no tags
         {
-- 
2.43.0


From 51ba42c635e6a415d4d9062cce1d09486fa636ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:07 +0000
Subject: [PATCH 63/84] fix: keep collected statistics within the buffer

---
 src/utils/stats.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/utils/stats.cpp b/src/utils/stats.cpp
index 5fe5be9..32d65ee 100644
--- a/src/utils/stats.cpp
+++ b/src/utils/stats.cpp
@@ -203,7 +203,7 @@ Stats::inject_metrics(TaskData& data)
                 char tmp[dp->c_size()];
                 int n = snprintf(buff+idx, size-idx, "put %s\n", dp->c_str(tmp));
 
-                if (size <= (idx + n - 2))
+                if (size <= (idx + n))
                 {
                     send_to_dst(buff, idx);
                     idx = snprintf(buff, size, "put %s\n", tmp);
@@ -689,33 +689,41 @@ Stats::collect_stats(char *buff, int size)
     MemoryManager::collect_stats(now, dps);
     for (DataPoint& dp: dps)
     {
+        if (size <= len) break;
         char tmp[dp.c_size()];
         len += snprintf(buff+len, size-len, "%s\n", dp.c_str(tmp));
     }
 
-    len += snprintf(buff+len, size-len,
-        "ticktock.connection.count %" PRIu64 " %d %s=%s\n",
-        now, TcpListener::get_active_conn_count(), HOST_TAG_NAME, g_host_name.c_str());
+    if (size > len)
+        len += snprintf(buff+len, size-len,
+            "ticktock.connection.count %" PRIu64 " %d %s=%s\n",
+            now, TcpListener::get_active_conn_count(), HOST_TAG_NAME, g_host_name.c_str());
 
     long ts_cnt = Tsdb::get_ts_count();
-    len += snprintf(buff+len, size-len,
-        "ticktock.time_series.count %" PRIu64 " %ld %s=%s\nticktock.time_series.memory %" PRIu64 " %ld %s=%s\n",
-        now, ts_cnt, HOST_TAG_NAME, g_host_name.c_str(),
-        now, ts_cnt*sizeof(TimeSeries), HOST_TAG_NAME, g_host_name.c_str());
+    if (size > len)
+        len += snprintf(buff+len, size-len,
+            "ticktock.time_series.count %" PRIu64 " %ld %s=%s\nticktock.time_series.memory %" PRIu64 " %ld %s=%s\n",
+            now, ts_cnt, HOST_TAG_NAME, g_host_name.c_str(),
+            now, ts_cnt*sizeof(TimeSeries), HOST_TAG_NAME, g_host_name.c_str());
 
-    len += snprintf(buff+len, size-len,
-        "ticktock.tsdb.active.count %" PRIu64 " %d %s=%s\n",
-        now, Tsdb::get_active_tsdb_count(), HOST_TAG_NAME, g_host_name.c_str());
+    if (size > len)
+        len += snprintf(buff+len, size-len,
+            "ticktock.tsdb.active.count %" PRIu64 " %d %s=%s\n",
+            now, Tsdb::get_active_tsdb_count(), HOST_TAG_NAME, g_host_name.c_str());
 
     std::vector<size_t> cnts;
-    len += snprintf(buff+len, size-len,
-        "ticktock.timer.pending_task.count %" PRIu64 " %zu %s=%s\n",
-        now, Timer::inst()->m_scheduler.get_pending_task_count(cnts), HOST_TAG_NAME, g_host_name.c_str());
+    if (size > len)
+        len += snprintf(buff+len, size-len,
+            "ticktock.timer.pending_task.count %" PRIu64 " %zu %s=%s\n",
+            now, Timer::inst()->m_scheduler.get_pending_task_count(cnts), HOST_TAG_NAME, g_host_name.c_str());
 
     if ((0 < len) && (len < size))
         buff[len] = 0;
     else
+    {
         buff[size-1] = 0;
+        len = std::strlen(buff);
+    }
 
     return len;
 }
-- 
2.43.0


From 1f6cc897ffebd0b4f2cb49b522c0c7b45e4c0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 64/84] fix: keep the current hour's rollup when a late data
 point arrives

---
 src/agg/rollup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 05b1746..4ae8670 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -216,7 +216,6 @@ RollupManager::add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPo
     {
         // this file has already been re-compressed
         tsdb->set_out_of_order2(tid, true);     // this will cause query to skip this rollup file
-        m_cnt = 0;  // invalidate any data currently in buffer
         return;
     }
 
@@ -239,7 +238,6 @@ RollupManager::add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPo
     {
         // out-of-order!!!
         tsdb->set_out_of_order2(tid, true);
-        m_cnt = 0;  // invalidate any data currently in buffer
         return;
     }
 
-- 
2.43.0


From 975a908a265638276a9007c6b1fb3563fce88bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 65/84] fix: do not append to a rollup file that was
 re-compressed

---
 src/core/mmap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 0ba55ec..17cf0d9 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1429,7 +1429,11 @@ RollupDataFile::add_data_point(TimeSeriesId tid, uint32_t cnt, double min, doubl
     else if (m_compressor_version == 2)
         size = RollupCompressor_v1::compress2(buff, tid, cnt, min, max, sum, m_compressor_precision);
     else
-        ASSERT(false);
+    {
+        // already re-compressed, nothing can be appended any more
+        Logger::error("Can't add rollup data to %s", m_name.c_str());
+        return;
+    }
 
     write(buff, size);
 }
-- 
2.43.0


From de9adaaa39fee77fd0dcdcadbf0c1d8da6f46e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 66/84] fix: start at the beginning of the month when reading
 its rollup entries

---
 src/core/mmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 17cf0d9..ff152d9 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1601,7 +1601,8 @@ RollupDataFile::query_entry(const TimeRange& range, struct rollup_entry *entry,
         QueryTask *task = search->second;
         Timestamp ts;
 
-        if (task->get_last_tstamp() == TT_INVALID_TIMESTAMP)
+        // the first entry in this file is always for the beginning of the month
+        if ((task->get_last_tstamp() == TT_INVALID_TIMESTAMP) || (task->get_last_tstamp() < m_begin))
         {
             ts = m_begin;
             task->set_last_tstamp(ts = m_begin);    // in seconds
-- 
2.43.0


From d067f4603336e9ce0e8ff7e853496280fef76336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 67/84] fix: look at all buffered rollup entries

---
 src/core/mmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index ff152d9..8394b5e 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1754,7 +1754,8 @@ RollupDataFile::query_level1_compressor_v1_v2(const TimeRange& range, std::unord
             len = RollupCompressor_v1::uncompress2((uint8_t*)(m_buff+i), m_index-i, &entry, m_compressor_precision);
         }
         if (len <= 0) break;
-        if (query_entry(range, &entry, map, rollup) > 0) break;
+        // entries of other time series may follow, so do not stop here
+        query_entry(range, &entry, map, rollup);
     }
 }
 
-- 
2.43.0


From cc0ff005fa32e4c83d537fb0d432b8741ead8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 68/84] fix: do not resubmit work on a connection that was
 closed meanwhile

---
 src/core/tcp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 2e8a11c..f2e9688 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1231,6 +1231,7 @@ TcpListener::resubmit(char c, int fd)
     }
 
     TcpConnection *conn = get_conn(fd);
+    if (conn == nullptr) return;    // closed in the meantime
     task.data.pointer = conn;
 
     if (1 == ++conn->pending_tasks)
-- 
2.43.0


From 74683895fc5c5bc3d73571809c58f8c3e0d077ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 69/84] fix: do not free an idle connection that still has work
 pending

---
 src/core/tcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index f2e9688..3f1c367 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1429,7 +1429,7 @@ TcpListener::disconnect()
         int timeout = Config::inst()->get_time(CFG_TCP_CONNECTION_IDLE_TIMEOUT,
             TimeUnit::SEC, CFG_TCP_CONNECTION_IDLE_TIMEOUT_DEF);
 
-        if (secs > timeout)
+        if ((secs > timeout) && (conn->pending_tasks <= 0))
         {
             Logger::trace("closing connection: conn=%p fd=%d", conn, conn->fd);
 
-- 
2.43.0


From 8b35ff4759451f6b82e996feecca8960fb610b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:42 +0000
Subject: [PATCH 70/84] fix: close the connection after a response was sent
 again

---
 src/core/http.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 387014d..8724076 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -606,7 +606,13 @@ HttpServer::resend_response(TaskData& data)
         }
         conn->response.recycle();
     }
-    --conn->pending_tasks;
+
+    int n = --conn->pending_tasks;
+    ASSERT(n >= 0);
+
+    if ((n <= 0) && (conn->state & TCS_CLOSED))
+        conn->close();
+
     return success;
 }
 
-- 
2.43.0


From deb2f8c107b0bb5c64288503d97f2483d6700cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:04 +0000
Subject: [PATCH 71/84] fix: start no more scheduler threads than there is room
 for

The number of threads is capped, and the arrays of workers are made for the
capped number. The loop that starts the workers went up to the number asked
for and wrote behind the arrays.
---
 src/core/task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/task.cpp b/src/core/task.cpp
index 57023da..ae186b7 100644
--- a/src/core/task.cpp
+++ b/src/core/task.cpp
@@ -95,7 +95,7 @@ TaskScheduler::init(std::string id, size_t thread_count, size_t queue_size)
     m_workers = static_cast<Worker**>(malloc(sizeof(Worker*) * m_thread_count));
     ASSERT(m_workers != nullptr);
 
-    for (size_t i = 0; i < thread_count; i++)
+    for (size_t i = 0; i < m_thread_count; i++)
     {
         Worker *worker = new Worker(i, queue_size);
         m_workers[i] = worker;
-- 
2.43.0


From e63bbd7751719abf171930cb79b16641a5b03554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:04 +0000
Subject: [PATCH 72/84] fix: wait for the UDP listeners before the data is
 taken down

The UDP listeners were told to stop but no one waited for them. They block
in recvmmsg without timeout, so they could still store data points while the
data was flushed and freed. Let the receive time out every second, and join
the listeners at shutdown.
---
 include/udp.h    |  2 ++
 src/core/udp.cpp | 23 +++++++++++++++++++++++
 src/main.cpp     |  1 +
 3 files changed, 26 insertions(+)

diff --git a/include/udp.h b/include/udp.h
index 7f7f350..5b7d474 100644
--- a/include/udp.h
+++ b/include/udp.h
@@ -33,6 +33,7 @@ class UdpListener : public Stoppable
 {
 public:
     UdpListener(int id, int port);
+    void wait(size_t timeout_secs);     // blocking call
 
 private:
     void receiver();            // thread loop
@@ -52,6 +53,7 @@ class UdpServer : public Stoppable
 public:
     bool start(int port);
     void shutdown(ShutdownRequest request = ShutdownRequest::ASAP);
+    void wait(size_t timeout_secs);     // blocking call
 
 private:
     UdpRequestHandler m_request_handler;    // current active handler
diff --git a/src/core/udp.cpp b/src/core/udp.cpp
index 2a582d5..fc3057c 100644
--- a/src/core/udp.cpp
+++ b/src/core/udp.cpp
@@ -38,6 +38,12 @@ UdpListener::UdpListener(int id, int port) :
     m_listener = std::thread(&UdpListener::receiver, this);
 }
 
+void
+UdpListener::wait(size_t timeout_secs)
+{
+    if (m_listener.joinable()) m_listener.join();
+}
+
 void
 UdpListener::receiver()
 {
@@ -60,6 +66,14 @@ UdpListener::receiver()
     if (retval == -1)
         Logger::error("Failed to setsockopt(REUSEPORT), errno: %d", errno);
 
+    // wake up from time to time to see if we should shut down
+    struct timeval tv;
+    tv.tv_sec = 1;
+    tv.tv_usec = 0;
+    retval = setsockopt(m_fd, SOL_SOCKET, SO_RCVTIMEO, (char *)&tv, sizeof(tv));
+    if (retval == -1)
+        Logger::error("Failed to setsockopt(RCVTIMEO), errno: %d", errno);
+
     struct sockaddr_in addr;
 
     addr.sin_family = AF_INET;
@@ -236,5 +250,14 @@ UdpServer::shutdown(ShutdownRequest request)
     }
 }
 
+void
+UdpServer::wait(size_t timeout_secs)
+{
+    for (UdpListener *listener: m_listeners)
+    {
+        listener->wait(timeout_secs);
+    }
+}
+
 
 }
diff --git a/src/main.cpp b/src/main.cpp
index 9e0871b..cdcc681 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -431,6 +431,7 @@ main(int argc, char *argv[])
     tcp_server.wait(0);
 
     udp_server.shutdown();
+    udp_server.wait(0);
 
     shutdown();
     delete Config::inst();
-- 
2.43.0


From a938f0604ad5a2af2701598466aa81b7d94ee6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:04 +0000
Subject: [PATCH 73/84] fix: accept counts given as two numbers

The counts of listeners and responders may be given as "a,b", one for each
of the two ports. The verification of the config refused the comma, so the
server would not start with them.
---
 src/utils/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index a470861..afbfbfb 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -279,7 +279,8 @@ Config::verify(std::map<std::string, std::shared_ptr<Property>>& props,
             const std::string& s = prop.second->as_str();
             for (auto c: s)
             {
-                if (!std::isdigit(c) && (c != '.') && (c != '-') && (c != '+'))
+                // ',' separates the two numbers of a listener/responder count
+                if (!std::isdigit(c) && (c != '.') && (c != '-') && (c != '+') && (c != ','))
                     throw std::runtime_error("Invalid number config: " + name);
             }
             continue;
-- 
2.43.0


From 750e750a5fa4b8fc0ea463bb74750bf20675a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:04 +0000
Subject: [PATCH 74/84] fix: keep the number of rollup buckets when the config
 is reloaded

The number of rollup buckets is kept with the data, and it cannot change
while there is data. Reloading the config dropped it and went back to what
the config file says, so rollup data was then looked for in the wrong
buckets.
---
 src/utils/config.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index afbfbfb..bd9d9b6 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -92,8 +92,10 @@ Config::init()
     }
     else
     {
-        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS,
-            std::to_string(m_instance->get_int(CFG_TSDB_ROLLUP_BUCKETS, CFG_TSDB_ROLLUP_BUCKETS_DEF)));
+        std::string buckets =
+            std::to_string(m_instance->get_int(CFG_TSDB_ROLLUP_BUCKETS, CFG_TSDB_ROLLUP_BUCKETS_DEF));
+        cfg.set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS, buckets);
+        m_instance->set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS, buckets);
     }
 
     cfg.persist();
@@ -118,6 +120,7 @@ void
 Config::load(bool override)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    std::shared_ptr<Property> buckets = get_property(CFG_TSDB_ROLLUP_BUCKETS);
 
     try
     {
@@ -153,6 +156,10 @@ Config::load(bool override)
         // let command-line options override config file
         for (auto const& override: m_overrides)
             set_value_no_lock(override.first, override.second->as_str());
+
+        // this one can't be changed once TT starts running
+        if (buckets != nullptr)
+            set_value_no_lock(CFG_TSDB_ROLLUP_BUCKETS, buckets->as_str());
     }
 }
 
-- 
2.43.0


From 35900b914fe852a98c79320f25572d07aa231d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:37 +0000
Subject: [PATCH 75/84] fix: keep the old rollup files if the recompressed ones
 can't be moved into place

The results of both renames were ignored and the backup removed anyway,
so a failed rename lost a month of rollup data.
---
 src/agg/rollup.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 4ae8670..207ef80 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -731,8 +731,17 @@ RollupManager::swap_recompressed_files(std::vector<RollupDataFile*>& data_files)
 
             bak_dir.append(".bak", 4);
             rm_dir(bak_dir);    // make sure it does not exist
-            std::rename(old_dir.c_str(), bak_dir.c_str());
-            std::rename(new_dir.c_str(), old_dir.c_str());
+            if (std::rename(old_dir.c_str(), bak_dir.c_str()) != 0)
+            {
+                Logger::error("Failed to rename %s, errno: %d", old_dir.c_str(), errno);
+                break;
+            }
+            if (std::rename(new_dir.c_str(), old_dir.c_str()) != 0)
+            {
+                Logger::error("Failed to rename %s, errno: %d", new_dir.c_str(), errno);
+                std::rename(bak_dir.c_str(), old_dir.c_str());
+                break;
+            }
             rm_dir(bak_dir);
 
             // update config
-- 
2.43.0


From 8b8e21a0addb8d2d67bd8e842a6b6657493c0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:37 +0000
Subject: [PATCH 76/84] fix: keep at least one day of data when retention is
 set to less

The number of days was rounded down to zero, so every archived partition
was removed. The start up code says it will use at least one day.
---
 src/core/tsdb.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 2f4cac9..158d5d0 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3391,7 +3391,11 @@ Tsdb::rotate(TaskData& data)
     MetaFile::instance()->flush();
 
     if (Config::inst()->exists(CFG_TSDB_RETENTION_THRESHOLD))
-        purge_oldest(Config::inst()->get_time(CFG_TSDB_RETENTION_THRESHOLD, TimeUnit::DAY));
+    {
+        Timestamp days = Config::inst()->get_time(CFG_TSDB_RETENTION_THRESHOLD, TimeUnit::DAY);
+        if (days < 1) days = 1;     // same as what we told in init()
+        purge_oldest(days);
+    }
 
     RollupManager::rotate();
 
-- 
2.43.0


From 141db3ec18a3c4acb09a5ec9ee8a41a943276fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:37 +0000
Subject: [PATCH 77/84] fix: remove leftovers of a failed compaction with the
 directories in them

Only files directly below were removed, so the metric directories of an
earlier try became part of the next compacted partition.
---
 src/core/tsdb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 158d5d0..5980188 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3554,7 +3554,7 @@ Tsdb::compact(TaskData& data)
                 // cleanup existing temporary tsdb, if any
                 std::string dir = get_tsdb_dir_name(range, TEMP_SUFFIX);
                 if (ends_with(dir, TEMP_SUFFIX)) // safty check
-                    rm_dir(dir);
+                    rm_dir2(dir);
 
                 // create a temporary tsdb to compact data into
                 Tsdb *compacted = Tsdb::create(range, false, TEMP_SUFFIX);
@@ -3601,7 +3601,7 @@ Tsdb::compact(TaskData& data)
                 // rename to indicate compaction was successful
                 std::string temp_name = get_tsdb_dir_name(range, TEMP_SUFFIX);
                 std::string done_name = get_tsdb_dir_name(range, DONE_SUFFIX);
-                rm_dir(done_name);  // in case it already exists
+                rm_dir2(done_name);  // in case it already exists
                 int rc = std::rename(temp_name.c_str(), done_name.c_str());
                 compact2();
 
-- 
2.43.0


From 55cff2917d1c1e0c38efc0d7831dbb571a08e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:29:37 +0000
Subject: [PATCH 78/84] fix: put a partition back if its compacted form can't
 be moved into place

---
 src/core/tsdb.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5980188..a641839 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3670,7 +3670,11 @@ Tsdb::compact2()
             std::rename(base.c_str(), back.c_str());
 
         // mv 1614009600.1614038400.done to 1614009600.1614038400
-        std::rename(done_dir.c_str(), base.c_str());
+        if (std::rename(done_dir.c_str(), base.c_str()) != 0)
+        {
+            Logger::error("[compact] Failed to rename %s, errno: %d", done_dir.c_str(), errno);
+            std::rename(back.c_str(), base.c_str());
+        }
 
         // rm 1614009600.1614038400.back
         if (file_exists(base) && file_exists(back))
-- 
2.43.0


From 49af6462b79d299b077611351f736a12cc70b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:04:04 +0000
Subject: [PATCH 79/84] fix: end the copied cluster definitions with a zero

std::string::copy does not write a terminating zero. The buffers holding the
partition and server definitions were parsed beyond their contents.
---
 src/core/part.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/part.cpp b/src/core/part.cpp
index 8dfca92..3e49053 100644
--- a/src/core/part.cpp
+++ b/src/core/part.cpp
@@ -625,7 +625,7 @@ PartitionManager::PartitionManager(Tsdb *tsdb, bool existing) :
         char buff[partition_defs.size()+2];
         JsonArray arr;
 
-        partition_defs.copy(buff, sizeof(buff));
+        buff[partition_defs.copy(buff, partition_defs.size())] = 0;
         JsonParser::parse_array(buff, arr);
 
         for (auto val: arr)
@@ -682,7 +682,7 @@ PartitionManager::init()
         char buff[servers.size()+2];
         JsonArray arr;
 
-        servers.copy(buff, sizeof(buff));
+        buff[servers.copy(buff, servers.size())] = 0;
         JsonParser::parse_array(buff, arr);
 
         for (auto val: arr)
-- 
2.43.0


From 2242c020c1a5b8d0ef4ed796ac45bf483be09896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:04:04 +0000
Subject: [PATCH 80/84] fix: refuse query results that do not fit instead of
 leaving points out

Points that did not fit in the buffer were left out of an answer that looked
complete. Long tags were cut off, which gave malformed JSON.
---
 src/core/query.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 801fce4..0101826 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1797,8 +1797,8 @@ QueryResults::to_json_aggregate_tags(char *buff, int size) const
 int
 QueryResults::to_json(char *buff, int size) const
 {
-    char buf1[1024];    // TODO: no magic numbers
-    char buf2[1024];    // TODO: no magic numbers
+    char buf1[2*MAX_TOTAL_TAG_LENGTH+32];   // quotes included
+    char buf2[2*MAX_TOTAL_TAG_LENGTH+32];
 
     int n = snprintf(buff, size, "{\"metric\":\"%s\",%s,%s,\"dps\":{",
         m_metric, to_json_tags(buf1, sizeof(buf1)),
@@ -1806,7 +1806,7 @@ QueryResults::to_json(char *buff, int size) const
 
     for (const DataPointPair& dp: m_dps)
     {
-        if ((n+8) >= size) break;
+        if ((n+8) >= size) return size;     // does not fit
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
-- 
2.43.0


From 657f92a120b7b0e7a3479ec374d65a144427b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:00 +0000
Subject: [PATCH 81/84] fix: take the zone of a formatted time into account in
 milliseconds too

The time was in seconds, but the difference to UTC was subtracted from it in
milliseconds when time stamps are in milliseconds.
---
 src/utils/utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 2aaa8a1..e3909e4 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -462,12 +462,10 @@ parse_ts(const JsonValue *value, Timestamp now, const char *tz)
         if (strcmp(tz, CFG_TSDB_TIMEZONE_DEF) != 0)
             tzdiff = get_tz_diff(tz);
 
-        ts = timegm(&tm);
+        ts = timegm(&tm) - tzdiff;
 
         if (g_tstamp_resolution_ms)
-            ts -= tzdiff * 1000;
-        else
-            ts -= tzdiff;
+            ts *= 1000;
     }
 
     return ts;
-- 
2.43.0


From e453357033530cd53570c5ae3784836d06c5257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:00 +0000
Subject: [PATCH 82/84] fix: keep to the limit of suggested names and refuse
 answers that do not fit

The limit only ended the inner loop, so more tag names and values were given
than asked for. Answers larger than the buffer were sent cut off.
---
 src/core/tsdb.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index a641839..b0f0400 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2679,7 +2679,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
         //ReadLock guard(m_tsdb_lock);
         std::lock_guard<std::mutex> guard(g_metric_lock);
 
-        for (auto it = g_metric_map.begin(); it != g_metric_map.end(); it++)
+        for (auto it = g_metric_map.begin(); (it != g_metric_map.end()) && (suggestions.size() < max); it++)
         {
             Mapping *mapping = it->second;
             ASSERT(it->first == mapping->m_metric);
@@ -2705,7 +2705,7 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
         //ReadLock guard(m_tsdb_lock);
         std::lock_guard<std::mutex> guard(g_metric_lock);
 
-        for (auto it = g_metric_map.begin(); it != g_metric_map.end(); it++)
+        for (auto it = g_metric_map.begin(); (it != g_metric_map.end()) && (suggestions.size() < max); it++)
         {
             Mapping *mapping = it->second;
             ASSERT(it->first == mapping->m_metric);
@@ -2735,7 +2735,10 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
 
     char* buff = MemoryManager::alloc_network_buffer();
     int n = JsonParser::to_json(suggestions, buff, buff_size);
-    response.init(200, HttpContentType::JSON, n, buff);
+    if (n < buff_size)
+        response.init(200, HttpContentType::JSON, n, buff);
+    else
+        response.init(413, HttpContentType::PLAIN);
     MemoryManager::free_network_buffer(buff);
 
     return true;
-- 
2.43.0


From 159de655539092332d383ebbc5e0d2ba3c2fa4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:44:21 +0000
Subject: [PATCH 83/84] fix: report missing header and data files instead of
 following a null pointer

---
 src/core/tsdb.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index b0f0400..009538a 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1631,6 +1631,8 @@ Tsdb::query_for_data(Metric *metric, QueryTask *task)
 
     std::lock_guard<std::mutex> guard(metric->m_lock);
     HeaderFile *header_file = metric->get_header_file_no_lock(file_idx);
+    if (header_file == nullptr)
+        throw std::runtime_error("Failed to find header file for read.");
     header_file->ensure_open(true);
     struct tsdb_header *tsdb_header = header_file->get_tsdb_header();
     struct page_info_on_disk *page_header = header_file->get_page_header(header_idx);
@@ -1644,6 +1646,8 @@ Tsdb::query_for_data(Metric *metric, QueryTask *task)
     if (query_range.has_intersection(range))
     {
         DataFile *data_file = metric->get_data_file_no_lock(file_idx);
+        if (data_file == nullptr)
+            throw std::runtime_error("Failed to find data file for read.");
         PThread_Lock lock(data_file->get_lock());
         lock.lock_for_read();
         data_file->ensure_open(true);
@@ -1879,6 +1883,8 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
         ASSERT(header_file != nullptr);
         ASSERT(header_file->get_id() == fidx);
 
+        if (header_file == nullptr)
+            throw std::runtime_error("Failed to find header file for read.");
         header_file->ensure_open(true);
         struct page_info_on_disk *header = header_file->get_page_header(hidx);
 
@@ -1899,6 +1905,8 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
     if (page_header != nullptr)
     {
         DataFile *data_file = get_data_file(mid, file_idx);
+        if (data_file == nullptr)
+            throw std::runtime_error("Failed to find data file for read.");
         PThread_Lock lock(data_file->get_lock());
         lock.lock_for_read();
         data_file->ensure_open(true);
@@ -2059,6 +2067,8 @@ Tsdb::set_indices(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
         HeaderFile *header_file = get_header_file_no_lock(mid, prev_file_idx);
         ASSERT(header_file != nullptr);
         ASSERT(header_file->get_id() == prev_file_idx);
+        if (header_file == nullptr)
+            throw std::runtime_error("Failed to find header file for write.");
         header_file->ensure_open(false);
         header_file->update_next(prev_header_idx, this_file_idx, this_header_idx);
     }
-- 
2.43.0


From dc809e6fc053df3242e4d9e09e8197c56bb81c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:44:21 +0000
Subject: [PATCH 84/84] fix: check what the meta file names before using it on
 restore

---
 src/core/tsdb.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 009538a..bdf74c6 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -778,6 +778,11 @@ Mapping::restore_measurement(std::string& measurement, std::string& tags, std::v
     std::vector<DataPoint> dps;
 
     Measurement *mm = get_measurement(buff, owner, measurement.c_str(), dps);
+    if (mm == nullptr)
+    {
+        Logger::error("Can't restore measurement %s, %s", measurement.c_str(), tags.c_str());
+        return;
+    }
     if (owner.get_tags() == nullptr)
         owner.parse(buff);
     TagCount count = owner.get_tag_count(true) + 1;
@@ -1554,7 +1559,11 @@ TimeSeries *
 Tsdb::restore_ts(std::string& metric, std::string& key, TimeSeriesId id)
 {
     auto search = g_metric_map.find(metric.c_str());
-    ASSERT(search != g_metric_map.end());
+    if (search == g_metric_map.end())
+    {
+        Logger::fatal("Unknown metric in meta file: %s %s %u", metric.c_str(), key.c_str(), id);
+        throw std::runtime_error("Unknown metric in meta file");
+    }
     Mapping *mapping = search->second;
     ASSERT(search->first == mapping->m_metric);
     return mapping->restore_ts(metric, key, id);
-- 
2.43.0

