From 92e695dc1744f6c763916b32d4f45e5108fbbab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 01/73] fix: map times before the file creation to buckets of
 their own

Truncating division made the interval just before file_create_time share
bucket index 0 with the first interval, so that a late sample erased it.
---
 daemon/StatCounter.cpp | 12 ++++++++++--
 lib/StatFile.cpp       | 11 +++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 2e6ff2c..55bab6d 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -357,10 +357,18 @@ bool StatCounter::shiftCollated(time_t t)
             ptr != end;
             ++ptr)
         {
-            if(ptr != counters_.begin())
+            if(ptr == counters_.begin())
             {
-                ptr->file->updateBucket(collations_[0].bucket);
+                continue;
             }
+            // The window starts out with empty buckets before the first event. Those must
+            // not start an interval that precedes the file.
+            if(collations_[0].writes == 0 &&
+                ptr->file->mapTimeToBucketIndex(collations_[0].bucket.time(), false) < 0)
+            {
+                continue;
+            }
+            ptr->file->updateBucket(collations_[0].bucket);
         }
         // Shift collations by one interval.
         for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW - 1; ++i)
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1012f11..3e6ec10 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -648,9 +648,16 @@ namespace istat
         time_t create_time = fileHeader_->file_create_time;
 
         int round_delta = (round_up && (timestamp % interval)) ? 1 : 0;
-        int64_t bucket_index = ((timestamp - create_time) / interval + round_delta);
+        int64_t delta = timestamp - create_time;
+        int64_t bucket_index = delta / interval;
+        //  Division truncates towards zero, but an interval before the creation time
+        //  is an interval of its own, not a second name for bucket 0.
+        if (delta < 0 && (delta % interval) != 0)
+        {
+            --bucket_index;
+        }
 
-        return bucket_index;
+        return bucket_index + round_delta;
     }
 
     time_t StatFile::mapBucketIndexToTime(int64_t bucket_index) const
-- 
2.43.0


From cae914dc13378b932e72bc515b8388c47978e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 02/73] fix: reading from before the file's window returned the
 wrong buckets

When the first bucket asked for was no longer in the file, reading started
at physical slot 0 whatever interval that slot held, so part of the data
in the requested range was left out.
---
 lib/StatFile.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 3e6ec10..2a6991e 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -307,16 +307,22 @@ namespace istat
 
     int64_t StatFile::readBuckets(Bucket *out_bucket_buf, int cnt, int64_t first_bucket) const
     {
-        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
-
-        if (first_bucket_file_index < 0)
+        //  Buckets that have already left the file cannot be read; skip past them.
+        int64_t oldest_bucket = fileHeader_->last_bucket - bucketCount_ + 1;
+        if (first_bucket < oldest_bucket)
         {
-            if (cnt+first_bucket_file_index < 0)
+            if (cnt <= oldest_bucket - first_bucket)
             {
                 return 0;
             }
-            cnt += first_bucket_file_index;   //  first_bucket_file_index is negative
-            first_bucket_file_index = 0;
+            cnt -= oldest_bucket - first_bucket;
+            first_bucket = oldest_bucket;
+        }
+        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
+
+        if (first_bucket_file_index < 0)
+        {
+            return 0;
         }
         if (cnt > bucketCount_)
         {
-- 
2.43.0


From 8a0080108451ce56fcf827667180cf512deda1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 03/73] fix: write a new counter file's header before
 allocating its space

A crash between the two left a file of full size without a header, which
is refused as not being a counter file ever after.
---
 lib/StatFile.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 2a6991e..1003bd2 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -266,12 +266,10 @@ namespace istat
         hdr.first_bucket = 0;
         hdr.last_bucket = 0;
         hdr.last_time = 0;
-        int i = mm_->truncate(fd_, 0);
-        if (i >= 0)
-        {
-            i = mm_->truncate(fd_, hdr.page_size * (hdr.page_count + 1));
-        }
-        if (i < 0)
+        //  Write the header before allocating space for the buckets. A file that is too
+        //  short is extended when it is opened, but one that has its full size and no
+        //  header (because we died in between) could never be opened again.
+        if (mm_->truncate(fd_, 0) < 0)
         {
             throw std::runtime_error(std::string("Could not allocate space for: ") + path);
         }
@@ -280,6 +278,10 @@ namespace istat
         {
             throw std::runtime_error(std::string("Could not prepare header for: ") + path);
         }
+        if (mm_->truncate(fd_, hdr.page_size * (hdr.page_count + 1)) < 0)
+        {
+            throw std::runtime_error(std::string("Could not allocate space for: ") + path);
+        }
     }
 
     int64_t StatFile::firstBucket() const
-- 
2.43.0


From 896bb16d89402e6122e633312ee0b8d2094a2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 04/73] fix: report a bucket's sum and average with the
 precision it is stored with

---
 lib/Bucket.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index 4bfc8de..a35bb8a 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -10,12 +10,16 @@
 
 float stabilizeFloat(float f) {
     return -std::numeric_limits<float>::infinity() == f
-      ? std::numeric_limits<float>::min()
+      ? -std::numeric_limits<float>::max()
       : std::numeric_limits<float>::infinity() == f
       ? std::numeric_limits<float>::max()
       : f;
 }
 
+static double stabilizeDouble(double d) {
+    return std::isinf(d) ? stabilizeFloat(float(d)) : d;
+}
+
 namespace istat
 {
 
@@ -51,7 +55,7 @@ namespace istat
 
     double Bucket::sum() const
     {
-        return stabilizeFloat(sum_);
+        return stabilizeDouble(sum_);
     }
 
     float Bucket::sumSq() const
@@ -129,7 +133,7 @@ namespace istat
 
     double Bucket::avg() const
     {
-        return stabilizeFloat(count_ > 0 ? double(sum_) / double(count_) : 0);
+        return stabilizeDouble(count_ > 0 ? double(sum_) / double(count_) : 0);
     }
 
     float Bucket::sdev() const
-- 
2.43.0


From 6b604073708bd37c7591739c73e8a258db0e7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 05/73] fix: a one-sample query of an empty range divided by
 zero

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 55bab6d..a9ef0a2 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -588,7 +588,7 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
 //  samples desired.
 void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples)
 {
-    if (maxSamples == 1)
+    if (maxSamples == 1 && end > start)
     {
         //  do a single bucket!
         interval = end - start;
-- 
2.43.0


From e36c6b55efdbf5e01b94b0cb743aa6e5abdf43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 06/73] fix: closing an event counter lost the events of its
 last intervals

---
 daemon/StatCounter.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index a9ef0a2..293b3bf 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -132,18 +132,8 @@ StatCounter::~StatCounter()
     ++countersClosed_;
     if(isCollated_)
     {
-        time_t t = istat::istattime(0);
-        if(t - collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time > 60 * 5)
-        {
-            // Must be recording in the past, or there was a fake time
-            // but it was recently destructed. Just force shift ahead
-            // by the collation length.
-            fullyShiftCollated();
-        }
-        else
-        {
-            maybeShiftCollated(t + (collationInterval_ * BUCKETS_PER_COLLATION_WINDOW / 2));
-        }
+        // Everything still pending has to reach the files, also the coarser ones.
+        fullyShiftCollated();
     }
 }
 
-- 
2.43.0


From c65d37199e1ba8cae4f510b132b58f93fc26704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 07/73] fix: events recorded after reopening a counter replaced
 the stored part of their interval

---
 daemon/StatCounter.cpp | 50 +++++++++++++++++++++++++++++++++++++-----
 daemon/StatCounter.h   |  3 +++
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 293b3bf..3fb83ad 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -32,14 +32,16 @@ DebugOption debugRejectedCounters("rejectedCounters");
 StatCounter::CollationInfo::CollationInfo()
     : bucket(true),
     writes(0),
-    time(0)
+    time(0),
+    stored(0)
 {
 }
 
 StatCounter::CollationInfo::CollationInfo(time_t t)
     : bucket(istat::Bucket(0, 0, 0, 0, 0, t)),
     writes(0),
-    time(t)
+    time(t),
+    stored(0)
 {
 }
 
@@ -221,13 +223,18 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
 
         CollationInfo &collation(collations_[i]);
         istat::Bucket &bucket(collation.bucket);
+        if(collation.writes == 0)
+        {
+            // The counter may have been closed and opened again within the interval.
+            collation.stored = storedSum(collation.time);
+        }
         bucket.collatedUpdate(value / double(collationInterval_), time);
         ++collation.writes;
 
         // Only update the statfile on power-of-two updates.
         if((collation.writes & (collation.writes - 1)) == 0)
         {
-            counters_.begin()->file->updateBucket(bucket);
+            writeCollation(collation);
         }
     }
     else
@@ -320,6 +327,40 @@ void StatCounter::maybeShiftCollated(time_t t)
     }
 }
 
+double StatCounter::storedSum(time_t t)
+{
+    boost::shared_ptr<istat::StatFile> const &file(counters_.begin()->file);
+    int64_t index = file->mapTimeToBucketIndex(t, false);
+    istat::Bucket b(true);
+    if(file->isBucketIndexInFile(index)
+        && file->readBuckets(&b, 1, index) == 1
+        && b.time() == t
+        && b.count() > 0)
+    {
+        return b.sum();
+    }
+    return 0;
+}
+
+void StatCounter::writeCollation(CollationInfo const &collation)
+{
+    boost::shared_ptr<istat::StatFile> const &file(counters_.begin()->file);
+    if(collation.writes == 0)
+    {
+        // Nothing happened in this interval; leave what may already be stored for it.
+        file->rawUpdateBucket(collation.bucket, istat::RAWUP_ONLY_IF_EMPTY);
+    }
+    else
+    {
+        istat::Bucket bucket(collation.bucket);
+        if(collation.stored != 0)
+        {
+            bucket.collatedUpdate(collation.stored, collation.time);
+        }
+        file->updateBucket(bucket);
+    }
+}
+
 bool StatCounter::shiftCollated(time_t t)
 {
     if(collations_[0].time == 0)
@@ -337,8 +378,7 @@ bool StatCounter::shiftCollated(time_t t)
         // Write collated buckets to the statfile.
         for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
         {
-            istat::Bucket &bucket(collations_[i].bucket);
-            counters_.begin()->file->updateBucket(bucket);
+            writeCollation(collations_[i]);
         }
         // Aggregate oldest bucket into coarser statfiles.
         for(std::vector<OneCounter>::iterator
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 85d5847..f3203e7 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -56,6 +56,7 @@ private:
         istat::Bucket bucket;
         uint64_t writes;
         time_t time;
+        double stored;  // what the finest file held for the interval before the first write
 
         CollationInfo();
         CollationInfo(time_t t);
@@ -71,6 +72,8 @@ private:
     bool shouldLog(const time_t& t);
 
     size_t findCollationIndex(time_t t);
+    double storedSum(time_t t);
+    void writeCollation(CollationInfo const &collation);
     void readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, time_t start_time, time_t end_time, std::vector<istat::Bucket> &oBuckets);
     void reduce(std::vector<istat::Bucket> &buckets, time_t startTime, time_t endTime, time_t interval, int collatedBucketSize);
     bool shiftCollated(time_t t);
-- 
2.43.0


From 8bf3ede8f0e29d7c2eaa68be3e0d7233633bacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 08/73] fix: a reduced query invented a bucket at time zero
 before the first data

---
 daemon/StatCounter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 3fb83ad..56bf6c2 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -783,7 +783,11 @@ void StatCounter::reduce(std::vector<istat::Bucket> &buckets, time_t startTime,
         istat::Bucket &bucket(buckets[i]);
         if (bucket.time() >= nextTime)
         {
-            appendReduced(result, reduction, currentTime, collatedBucketCount);
+            //  there is nothing to report for intervals before the first bucket
+            if (reduction.time() > 0)
+            {
+                appendReduced(result, reduction, currentTime, collatedBucketCount);
+            }
 
             reduction = istat::Bucket(true);
             //  death detection counter -- paranoia if bTime == MAX_INT or something!
-- 
2.43.0


From 6c907a91112385ade05846e52b2988fdef95c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 09/73] fix: a query from before a file's window returned stale
 or wrongly timed buckets

---
 daemon/StatCounter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 56bf6c2..982dd34 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -719,6 +719,9 @@ void StatCounter::readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, tim
     int64_t start_index = sf->mapTimeToBucketIndex(start_time, /* round up */ false);
     int count = sf->numBucketsBetween(start_time, end_time, /* round up */ false);
 
+    //  slots may still hold data from before the window of the file
+    start_time = std::max(start_time, sf->mapBucketIndexToTime(sf->lastBucket() - sf->settings().numSamples + 1));
+
     if (count > 0)
     {
     	oBuckets.resize(count);
-- 
2.43.0


From 17afd43a5a1db19d96e073a5241b380820699946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 10/73] fix: a deleted counter still in use crashed the server

---
 daemon/StatCounter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 982dd34..67277f3 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -158,6 +158,12 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
     ++dequeueRecords_;
     --queueLenRecords_;
 
+    if(counters_.empty())
+    {
+        // purged
+        return;
+    }
+
     time_t nowTime;
     if(isCollated_)
     {
@@ -363,9 +369,9 @@ void StatCounter::writeCollation(CollationInfo const &collation)
 
 bool StatCounter::shiftCollated(time_t t)
 {
-    if(collations_[0].time == 0)
+    if(counters_.empty() || collations_[0].time == 0)
     {
-        // Nothing to flush yet!
+        // Nothing to flush yet, or purged!
         return false;
     }
     else
@@ -842,6 +848,12 @@ void StatCounter::select(time_t start_time, time_t end_time, bool trailing, std:
     normalized_start = start_time;
     normalized_end   = end_time;
 
+    if (counters_.empty())
+    {
+        // purged
+        return;
+    }
+
     boost::shared_ptr<istat::StatFile> sf = trailing ?
         pickTrailingStatFile(istat::istattime(0) - start_time, interval, end_time) :
         pickStatFile(start_time, end_time, interval);
-- 
2.43.0


From 365d6d6fad13c0d199c37fd256aa6fdfa0d3c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 11/73] fix: deleting a counter again lost its data instead of
 keeping a backup

---
 daemon/StatCounter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 67277f3..64352a1 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -458,6 +458,12 @@ void StatCounter::purge(std::string rootPath)
         std::string counterBackupPath = ptr->file->getPath();
         boost::algorithm::replace_all(counterBackupPath, rootPath, backupDir);
 
+        // Keep the backups of earlier counters with the same name.
+        std::string backupBase(counterBackupPath);
+        for (int i = 1; boost::filesystem::exists(counterBackupPath); ++i)
+        {
+            counterBackupPath = backupBase + "." + boost::lexical_cast<std::string>(i);
+        }
 
         boost::system::error_code ec;
         boost::filesystem::create_hard_link(boost::filesystem::path(ptr->file->getPath()), boost::filesystem::path(counterBackupPath), ec);
-- 
2.43.0


From b37cd24cc70e16acdab2b690fbec92409280be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 12/73] fix: a pattern with '?' after '*' did not match

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index fe210a5..f99c0ef 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -298,7 +298,7 @@ namespace istat
                         }
                         S.pstr = pos+1;
                         backup.push_back(S);
-                        S.ppat += 2;
+                        S.ppat = npos + 1;
                     }
                 }
                 break;
-- 
2.43.0


From 4d6300c436bdeddb8db7479781eb53c8783da787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 13/73] fix: a counter created while keys were listed or
 refreshed could stay missing from listings

---
 daemon/AllKeys.cpp | 13 +++++++++----
 daemon/AllKeys.h   |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/daemon/AllKeys.cpp b/daemon/AllKeys.cpp
index a015a6b..ca5e1c4 100644
--- a/daemon/AllKeys.cpp
+++ b/daemon/AllKeys.cpp
@@ -15,7 +15,8 @@ DebugOption allKeys("allKeys");
 
 CounterResponse::CounterDisplayTypeToStringMap CounterResponse::DisplayTypeToString = map_list_of(DisplayTypeGauge, "gauge")(DisplayTypeEvent, "counter")(DisplayTypeAggregate, "aggregate");
 AllKeys::AllKeys() :
-    head_(0)
+    head_(0),
+    dirty_(false)
 {
 }
 
@@ -33,10 +34,12 @@ AllKeys::~AllKeys()
 
 void AllKeys::exchange(AllKeys &ak)
 {
-    Rec* old_head = head_;
-    dirty_ = true;
+    //  A match() may be running.
+    grab aholdof(lock_);
+    Rec* old_head;
     while (true)
     {
+        old_head = head_;
         if(istat::atomic_compare_exchange((void * volatile *)&head_, (void *)old_head, (void *)ak.head_))
         {
             break;
@@ -45,12 +48,12 @@ void AllKeys::exchange(AllKeys &ak)
     }
     ak.head_ = old_head;
     toMatch_.clear();
+    dirty_ = true;
 
 }
 
 void AllKeys::add(std::string const &str, bool isCollated)
 {
-    dirty_ = true;
     if (allKeys.enabled())
     {
         LogSpam << "AllKeys::add(" << str << ")";
@@ -65,6 +68,8 @@ void AllKeys::add(std::string const &str, bool isCollated)
         r->next = head_;
         if (istat::atomic_compare_exchange((void * volatile *)&head_, (void *)r->next, (void *)r))
         {
+            //  Not before the key can be found, or match() could miss it for good.
+            dirty_ = true;
             return;
         }
     }
diff --git a/daemon/AllKeys.h b/daemon/AllKeys.h
index 30e1de8..fe823f3 100644
--- a/daemon/AllKeys.h
+++ b/daemon/AllKeys.h
@@ -83,7 +83,7 @@ private:
         KeyMatch::CounterData data;
     };
     Rec *head_;
-    bool dirty_;
+    bool volatile dirty_;
     KeyMatch toMatch_;
     lock lock_;
 };
-- 
2.43.0


From c854a2bf1cfb5fdd35416c9e5df40c3217ec963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 14/73] fix: key refreshes stopped for good once a few were
 requested at a time

---
 daemon/StatStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f1bd066..29c3ad4 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -589,6 +589,8 @@ void StatStore::refreshAllKeys()
     boost::shared_ptr<AsyncCounter> value;
 
     LogSpam << "StatStore::refreshAllKeys()";
+    //  Changes from here on need another refresh.
+    __sync_fetch_and_sub(&queuedRefreshes_, 1);
     for (int i = 0; i < counterShards_.dimension(); ++i)
     {
         std::pair<CounterMap&, ::lock&> mapAndLock = counterShards_.get_from_index(i);
@@ -617,14 +619,13 @@ void StatStore::refreshAllKeys()
     }
     keys_.exchange(keysWA_);
     keysWA_.delete_all();
-    __sync_fetch_and_sub(&queuedRefreshes_, 1);
 }
 
 void StatStore::scheduleRefresh()
 {
     LogSpam << "StatStore::scheduleRefresh()";
 
-    if(__sync_fetch_and_add(&queuedRefreshes_, 1) <= MAX_QUEUED_KEY_REFRESHES)
+    if(__sync_fetch_and_add(&queuedRefreshes_, 1) < MAX_QUEUED_KEY_REFRESHES)
     {
         LogDebug << "StatStore::scheduleRefresh() - queueing a refresh. (" << queuedRefreshes_ << "/" << MAX_QUEUED_KEY_REFRESHES << ") scheduled.";
 #if BOOST_VERSION >= 106700
@@ -635,6 +636,7 @@ void StatStore::scheduleRefresh()
     }
     else
     {
+        __sync_fetch_and_sub(&queuedRefreshes_, 1);
         LogNotice << "StatStore::scheduleRefresh() - Did not schedule a refresh. There are already " << queuedRefreshes_ << "/" << MAX_QUEUED_KEY_REFRESHES << " scheduled.";
     }
 }
-- 
2.43.0


From 6937cd75e78a341f36bf1bd6a21ce854ba5edb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 15/73] fix: a counter created during a key refresh went
 missing, and creating without parents could deadlock

---
 daemon/StatStore.cpp | 15 +++++++++++++++
 daemon/StatStore.h   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 29c3ad4..37ecf7c 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -205,6 +205,20 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             LogSpam << "StatStore::openCounter(" << name << ") ... skipping creation";
             return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
         }
+    }
+    {
+        //  Only one thread at a time creates a counter or replaces the list of keys, because
+        //  -  a key added while the list is replaced would be lost, and
+        //  -  looking at the shards of the enclosing names while holding my own would deadlock.
+        grab aholdofcreate(createMutex_);
+        grab aholdof(counterShards_.lock(xform));
+        CounterMap &counters(counterShards_.map(xform));
+        CounterMap::iterator ptr(counters.find(xform));
+        if (ptr != counters.end())
+        {
+            //  somebody else was faster
+            return (*ptr).second;
+        }
         if (!recursivelyCreateCounters_) {
             // Check if name conflicts with an existing counter
             std::string xform_prefix(xform);
@@ -589,6 +603,7 @@ void StatStore::refreshAllKeys()
     boost::shared_ptr<AsyncCounter> value;
 
     LogSpam << "StatStore::refreshAllKeys()";
+    grab aholdofcreate(createMutex_);
     //  Changes from here on need another refresh.
     __sync_fetch_and_sub(&queuedRefreshes_, 1);
     for (int i = 0; i < counterShards_.dimension(); ++i)
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 64aa396..d0e2ff4 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -110,6 +110,8 @@ private:
     std::list< boost::shared_ptr<AsyncCounter> > pendedDeletes_;
     ::lock deleteMutex_;
     ::lock pruneEmptyDirsMutex_;
+    //  Take this before any lock of a shard.
+    ::lock createMutex_;
     istat::Mmap *mm_;
     long flushMs_;
     long minimumRequiredSpace_;
-- 
2.43.0


From b20fc6837f494c568fd8eaace312d6dd4d9d345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 16/73] fix: a counter that cannot be created made its client's
 connection stall

---
 daemon/StatStore.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 37ecf7c..ffb545b 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -240,7 +240,16 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         //  I hold the lock while creating the file, which is sub-optimal
         //  but avoids racing.
         LogSpam << "StatStore::openCounter(" << name << ") ... creating";
-        boost::shared_ptr<IStatCounter> statCounter = factory_->create(xform, isCollated, zeroTime, onlyExisting);
+        boost::shared_ptr<IStatCounter> statCounter;
+        try
+        {
+            statCounter = factory_->create(xform, isCollated, zeroTime, onlyExisting);
+        }
+        catch (std::exception const &x)
+        {
+            //  Such as a name that is too long, or is in the way of a file of another counter.
+            LogError << "Could not open counter" << xform << ":" << x.what();
+        }
         if (!statCounter)
         {
             return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
-- 
2.43.0


From 7a525bfb4875f54834842dc9926834c7b9f2abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 17/73] fix: names with empty parts shared the files of another
 counter

---
 daemon/StatStore.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index ffb545b..6c35d01 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -30,6 +30,24 @@ using namespace istat;
 
 long const DEFAULT_MIN_REQUIRED_SPACE = 100 * 1024 * 1024;
 
+//  A counter lives in a directory with one level per part of the name, so empty parts make
+//  no difference there: "a..b", ".a.b" and "a.b." would share the files of "a.b".
+static void strip_empty_parts(std::string &name)
+{
+    std::string out;
+    size_t start = (name.size() && name[0] == '*') ? 1 : 0;
+    for (size_t i = start; i < name.size(); ++i)
+    {
+        if (name[i] == '.' && (out.empty() || i + 1 == name.size() || name[i + 1] == '.'))
+        {
+            continue;
+        }
+        out.push_back(name[i]);
+    }
+    name.resize(start);
+    name += out;
+}
+
 StatStore::StatStore(std::string const &path, int uid,
     boost::asio::io_service &svc,
     boost::shared_ptr<IStatCounterFactory> factory,
@@ -127,6 +145,7 @@ void StatStore::record(std::string const &ctr, time_t time, double value)
 void StatStore::record(std::string const &ctr, time_t time, double value, double valueSq, double min, double max, size_t cnt)
 {
     std::string cname(ctr);
+    strip_empty_parts(cname);
 
     LogSpam << "StatStore::record()";
     //  I will only aggregate up to N levels -- more than that, and contention becomes too bad
@@ -189,6 +208,11 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         isCollated = true;
     }
     munge(xform);
+    strip_empty_parts(xform);
+    if (!xform.length())
+    {
+        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
+    }
     boost::shared_ptr<StatStore::AsyncCounter> asyncCounter;
     {
         grab aholdof(counterShards_.lock(xform));
-- 
2.43.0


From ebaf1137bfc50ab36978c1f89c37c90c2e6110c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 18/73] fix: a failure to prune directories ended all further
 pruning and the key refresh after a deletion

---
 daemon/StatStore.cpp | 47 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 6c35d01..f7ad281 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -371,38 +371,41 @@ void StatStore::pruneEmptyDirs(const std::string& purgePath)
 {
     LogSpam << "StatStore::pruneEmptyDirs(" << purgePath << ")";
     grab aholdof(pruneEmptyDirsMutex_);
-    boost::filesystem::directory_iterator it(purgePath);
-    boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
-
-    while(it != end)
+    try
     {
-        const boost::filesystem::path& path = it->path();
+        boost::filesystem::directory_iterator it(purgePath);
+        boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
 
-        if (boost::filesystem::is_directory(path))
+        while(it != end)
         {
-            const boost::filesystem::path del = path;
-            ++it;
+            const boost::filesystem::path& path = it->path();
+
+            if (boost::filesystem::is_directory(path))
+            {
+                const boost::filesystem::path del = path;
+                ++it;
 
-            pruneEmptyDirs(del.string());
+                pruneEmptyDirs(del.string());
+            }
+            else
+            {
+                ++it;
+            }
         }
-        else
+        //  No counter may be between making its directory and making its files.
+        grab aholdofcreate(createMutex_);
+        if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
         {
-            ++it;
-        }
-    }
-    if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
-    {
-        const boost::filesystem::path del = purgePath;
+            const boost::filesystem::path del = purgePath;
 
-        try
-        {
             LogNotice << "Pruning an empty directory: " << del;
             boost::filesystem::remove(del);
         }
-        catch (const boost::filesystem::filesystem_error & ex)
-        {
-            LogWarning << "Couldnt delete empty directory " << del << " because " << ex.what();
-        }
+    }
+    catch (const boost::filesystem::filesystem_error & ex)
+    {
+        //  Somebody else may be deleting, too. Whatever is left has to wait until the next time.
+        LogWarning << "Couldnt prune empty directories of " << purgePath << " because " << ex.what();
     }
 }
 
-- 
2.43.0


From e838e845ba4fcec76bff2b589751ea94a96ee8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 19/73] fix: a counter recorded again while its files were
 being deleted lost its data

---
 daemon/StatStore.cpp | 16 +++++++++++++++-
 daemon/StatStore.h   |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f7ad281..d9bbc05 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -560,7 +560,16 @@ public:
         Deleter::Work work(toDelete.front());
         toDelete.pop_front();
         //counter purging needs to know the stores root path to properly relocate counters for backup
-        work.counter->purge(rootPath_);
+        try
+        {
+            work.counter->purge(rootPath_);
+        }
+        catch (std::exception const &x)
+        {
+            //  The others are still to be deleted.
+            LogError << "Could not delete counter" << work.ctr << ":" << x.what();
+        }
+        work.aCount->purged_ = true;
         go();
     }
 
@@ -661,6 +670,11 @@ void StatStore::refreshAllKeys()
                 keysWA_.add(key, value->statCounter_->isCollated());
                 ++it;
             }
+            else if (!value->purged_)
+            {
+                //  A new counter must not get files that are still to be moved away.
+                ++it;
+            }
             else
             {
                 LogNotice << "StatStore::refreshAllKeys(" << key << ") ... removing a theDeleted counter from the map";
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index d0e2ff4..58f8cbb 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -72,6 +72,7 @@ public:
         AsyncCounter(boost::asio::io_service &svc,
                      boost::shared_ptr<IStatCounter> statCounter)
             : statCounter_(statCounter),
+              purged_(false),
 #if BOOST_VERSION >= 106700
             strand_(svc.get_executor()) {
 #else
@@ -79,6 +80,7 @@ public:
 #endif
         }
         boost::shared_ptr<IStatCounter> statCounter_;
+        bool volatile purged_;
 #if BOOST_VERSION >= 106700
         boost::asio::strand<boost::asio::io_service::executor_type> strand_;
 #else
-- 
2.43.0


From c7947f4aed7992804ee2351a99284fae81621f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 20/73] fix: a counter with a long path could not be deleted

---
 include/istat/StatFile.h | 1 +
 lib/StatFile.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/istat/StatFile.h b/include/istat/StatFile.h
index 7508fa0..82218f0 100644
--- a/include/istat/StatFile.h
+++ b/include/istat/StatFile.h
@@ -80,6 +80,7 @@ namespace istat
 
     private:
         Settings settings_;
+        std::string path_;
         Header *fileHeader_;
         Mmap *mm_;
         Stats stats_;
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1003bd2..534704e 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -98,6 +98,7 @@ namespace istat
     void StatFile::open(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate)
     {
         Log(LL_Debug, "istat") << "StatFile::open opening " << path;
+        path_ = path;
         memset(reinterpret_cast<void *>(expBucket), 0, sizeof(expBucket));
         memset(pages, 0, sizeof(pages));
         lruNextPage_ = 0;
@@ -465,7 +466,8 @@ namespace istat
 
     std::string StatFile::getPath()
     {
-        return std::string(fileHeader_ ? fileHeader_->name : "");
+        //  The header has room for the beginning of the path only.
+        return fileHeader_ ? path_ : std::string();
     }
 
     bool StatFile::updateBucket(Bucket const &data)
-- 
2.43.0


From e1764fb3b2bac4600509f76f6a6ddee3593c6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 21/73] fix: concurrent deletion and use of a counter raced

---
 daemon/StatStore.cpp | 36 ++++++++++++++++++++----------------
 daemon/StatStore.h   |  8 ++++++++
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index d9bbc05..e1336cd 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -160,9 +160,9 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
             ++IStatCounter::enqueueRecords_;
             ++IStatCounter::queueLenRecords_;
 #if BOOST_VERSION >= 106700
-            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #else
-            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #endif
         }
         if (!stripext(cname))
@@ -183,7 +183,7 @@ void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &st
         statCounter = boost::shared_ptr<IStatCounter>((IStatCounter*)0);
         return;
     }
-    statCounter = asyncCounter->statCounter_;
+    statCounter = asyncCounter->counter();
     strand = &asyncCounter->strand_;
 
 }
@@ -285,7 +285,7 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             return asyncCounter;
         }
         counters[xform] = asyncCounter;
-        keys_.add(xform, asyncCounter->statCounter_->isCollated());
+        keys_.add(xform, statCounter->isCollated());
     }
 
     if(recursivelyCreateCounters_ && create)
@@ -313,9 +313,9 @@ void StatStore::flushOne(Shards::iterator &iterator)
     }
     LogSpam << "StatStore::flushOne(" << key << ")";
 #if BOOST_VERSION >= 106700
-    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #else
-    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #endif
 }
 
@@ -602,14 +602,17 @@ void StatStore::deleteCounter(std::string const &ctr, Deleter* deleter, IComplet
     boost::shared_ptr<StatStore::AsyncCounter> aCount = openCounter(ctr, false, false, 0);
     if (!!aCount)
     {
-        boost::shared_ptr<IStatCounter> oldPtr = aCount->statCounter_;
-        aCount->statCounter_ = theDeletedCounter;
-        Deleter::Work w;
-        w.aCount = aCount;
-        w.counter = oldPtr;
-        w.ctr = ctr;
+        //  Somebody else may be deleting it, or looking at it, at the same time.
+        boost::shared_ptr<IStatCounter> oldPtr = aCount->exchange(theDeletedCounter);
+        if (oldPtr != theDeletedCounter)
+        {
+            Deleter::Work w;
+            w.aCount = aCount;
+            w.counter = oldPtr;
+            w.ctr = ctr;
 
-        deleter->addWork(w);
+            deleter->addWork(w);
+        }
 
     }
     if(complete)
@@ -665,9 +668,10 @@ void StatStore::refreshAllKeys()
         {
             key = (*it).first;
             value = (*it).second;
-            if(!(value->statCounter_ == theDeletedCounter))
+            boost::shared_ptr<IStatCounter> statCounter = value->counter();
+            if(!(statCounter == theDeletedCounter))
             {
-                keysWA_.add(key, value->statCounter_->isCollated());
+                keysWA_.add(key, statCounter->isCollated());
                 ++it;
             }
             else if (!value->purged_)
@@ -731,7 +735,7 @@ public:
         boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());
         ptrs.pop_front();
         // Force, so collations are fully shifted.
-        ptr->statCounter_->forceFlush(ss_);
+        ptr->counter()->forceFlush(ss_);
         go();
     }
     boost::shared_ptr<IStatStore> ss_;
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 58f8cbb..ad9b2ed 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -79,6 +79,14 @@ public:
             strand_(svc) {
 #endif
         }
+        boost::shared_ptr<IStatCounter> counter() const
+        {
+            return boost::atomic_load(&statCounter_);
+        }
+        boost::shared_ptr<IStatCounter> exchange(boost::shared_ptr<IStatCounter> other)
+        {
+            return boost::atomic_exchange(&statCounter_, other);
+        }
         boost::shared_ptr<IStatCounter> statCounter_;
         bool volatile purged_;
 #if BOOST_VERSION >= 106700
-- 
2.43.0


From 95d20f8a0a5bf1f1039d740b199860aa09bb75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 22/73] fix: a flush could overtake a sample recorded before it

---
 daemon/StatStore.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index e1336cd..4abe071 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -160,9 +160,10 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
             ++IStatCounter::enqueueRecords_;
             ++IStatCounter::queueLenRecords_;
 #if BOOST_VERSION >= 106700
-            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
+            //  Straight to the strand: by way of the service, a flush asked for later might overtake this.
+            boost::asio::post(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt));
 #else
-            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
+            asyncCounter->strand_.post(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt));
 #endif
         }
         if (!stripext(cname))
@@ -724,11 +725,12 @@ public:
             return;
         }
 #if BOOST_VERSION >= 106700
-        boost::asio::post(ptrs.front()->strand_.get_inner_executor().context(), boost::asio::bind_executor(ptrs.front()->strand_,
+        //  Straight to the strand, behind everything recorded before this.
+        boost::asio::post(ptrs.front()->strand_,
 #else
-        ptrs.front()->strand_.get_io_service().post(ptrs.front()->strand_.wrap(
+        ptrs.front()->strand_.post(
 #endif
-            boost::bind(&Flusher::flush_stuff, this)));
+            boost::bind(&Flusher::flush_stuff, this));
     }
     void flush_stuff()
     {
-- 
2.43.0


From 0d3025637bc9f50a182217ede1d30714adfa3485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 23/73] fix: a counter name with two carets in a row made the
 server loop forever

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index f99c0ef..1561d0b 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -405,8 +405,8 @@ namespace istat
             {
                 //  don't allow empty substrings
                 osubs.push_back(base + istr.substr(pos+1, next-(pos+1)));
-                pos = next;
             }
+            pos = next;
         }
     }
 
-- 
2.43.0


From 52482f562469790e033a4c9bd1d396350432b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 24/73] fix: an empty line in a datagram was glued to the line
 after it

---
 daemon/StatServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a7195e3..a4af436 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -857,9 +857,9 @@ void StatServer::on_udp_recv(boost::system::error_code const &err, size_t bytes)
                     if (off > base + 1)
                     {
                         std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
-                        base = off + 1;
                         handleCmd(cmd, udpEndpoint_);
                     }
+                    base = off + 1;
                 }
                 ++off;
             }
-- 
2.43.0


From dc4293c860511934bd3d55fdde6083fd5aad7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 25/73] fix: a negative count in a received stat was taken as a
 huge one

---
 daemon/StatServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a4af436..83b42aa 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -70,6 +70,11 @@ time_t to_time_t(std::string const &str)
 
 size_t to_size_t(std::string const &str)
 {
+    //  lexical_cast would wrap a negative number around
+    if (!str.empty() && str[0] == '-')
+    {
+        throw boost::bad_lexical_cast();
+    }
     return boost::lexical_cast<size_t>(str);
 }
 
-- 
2.43.0


From 7bf27c240cf10f8aec8acdf20cd5916adf745dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 26/73] fix: a blacklisted hostname in one datagram made the
 server ignore all datagrams

---
 daemon/StatServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 83b42aa..c9a1f09 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -432,7 +432,9 @@ void StatServer::on_inputData(boost::shared_ptr<ConnectionInfo> ec)
 StatServer::HandleStatus StatServer::handleCmd(std::string const &cmd, boost::shared_ptr<ConnectionInfo> const &ec)
 {
     LogSpam << "StatServer::handleCmd(" << cmd << ")";
-    if (blacklist_ && checkBlacklistAndMaybeClose(ec))
+    //  all datagrams share one set of meta info, so a name given in one of them
+    //  must not turn away every other sender
+    if (blacklist_ && ec->asEagerConnection() && checkBlacklistAndMaybeClose(ec))
     {
         return HandleBlacklisted;
     }
-- 
2.43.0


From c0da13e1fd684ff24870ed11ea8be9ce2e077b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 27/73] fix: purging meta info kept all offline records when
 there were too many, and none otherwise

---
 daemon/StatServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index c9a1f09..dcd43bb 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -276,7 +276,7 @@ void StatServer::purgeOldMetaRecords(size_t maxOld, time_t maxAge)
     size_t n = toPurge.size();
     for (size_t i = 0; i != n; ++i)
     {
-        if (toPurge[i].first > then && (n - i) >= maxOld)
+        if (toPurge[i].first > then && (n - i) <= maxOld)
         {
             break;
         }
-- 
2.43.0


From 3d2a714c38d389ab3392947aa1d1df6cefdc93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 28/73] fix: a sample with a time far off was taken into a
 forwarding interval (difference truncated to int)

---
 daemon/Bucketizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Bucketizer.cpp b/daemon/Bucketizer.cpp
index ed8e6e2..77c6a43 100644
--- a/daemon/Bucketizer.cpp
+++ b/daemon/Bucketizer.cpp
@@ -28,7 +28,7 @@ void Bucketizer::update(istat::Bucket const &o) {
     time = time - (time % 10); // make a 10 second offset bucket
 
     // this will be 0 for furthest back in time
-    int offset = ((time - now) / 10) + (BUCKET_COUNT-2);
+    int64_t offset = ((time - now) / 10) + (BUCKET_COUNT-2);
     // assume now is between 50 and 59, time is cast to "50", BUCKET_COUNT is 5
     // time
     // 20 --> 0 <--- now - 30
-- 
2.43.0


From e01328f2acc31ab74b122c15a5e70ed8a471c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 29/73] fix: values were forwarded with six digits only

---
 daemon/StatServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index dcd43bb..67c24d8 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -708,6 +708,10 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         size_t forwardIndex = 0;
         //  if not opened, then we lose this bucket
         std::stringstream ss[count];
+        for (size_t i = 0; i < count; ++i) {
+            //  a double must come out as it went in
+            ss[i].precision(17);
+        }
         for (std::tr1::unordered_map<std::string, Bucketizer>::iterator
             ptr(buckets.begin()), end (buckets.end());
             ptr != end;
-- 
2.43.0


From 898902011cba58e34cd9d27e96085638eabef01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 30/73] fix: a blacklist changed again within a second, or
 replaced by an older file, was not read

---
 daemon/Blacklist.cpp | 9 +++++++--
 daemon/Blacklist.h   | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/daemon/Blacklist.cpp b/daemon/Blacklist.cpp
index ad55c3f..abbf4fc 100644
--- a/daemon/Blacklist.cpp
+++ b/daemon/Blacklist.cpp
@@ -18,6 +18,8 @@ Blacklist::Blacklist(boost::asio::io_service &svc, Configuration &cfg) :
     tryReadBlacklistTimer_(svc),
     blacklistPath_(cfg.path),
     lastModifiedTime_(0),
+    lastModifiedNsec_(0),
+    lastSize_(-1),
     period_(cfg.period)
 {
     LogSpam << "Blacklist::Blacklist being created ( " << cfg.path << " )";
@@ -57,9 +59,10 @@ void Blacklist::load()
 
         time_t modifiedTime = st.st_mtime;
 
-        if (modifiedTime <= lastModifiedTime_)
+        //  any change counts, also a second one within the same second, or going back to an older file
+        if (modifiedTime == lastModifiedTime_ && st.st_mtim.tv_nsec == lastModifiedNsec_ && st.st_size == lastSize_)
         {
-            LogDebug << "Blacklist::load modified time is not new enough ( " << modifiedTime << ", " << lastModifiedTime_ << " )";
+            LogDebug << "Blacklist::load file has not changed ( " << modifiedTime << ", " << lastModifiedTime_ << " )";
             return;
         }
 
@@ -107,6 +110,8 @@ void Blacklist::load()
         }
 
         lastModifiedTime_ = modifiedTime;
+        lastModifiedNsec_ = st.st_mtim.tv_nsec;
+        lastSize_ = st.st_size;
         LogNotice << "Blacklist::load new mod time! ( " << lastModifiedTime_ << " ).";
     }
     catch (std::exception const &x)
diff --git a/daemon/Blacklist.h b/daemon/Blacklist.h
index 4bf692b..0e5113a 100644
--- a/daemon/Blacklist.h
+++ b/daemon/Blacklist.h
@@ -41,6 +41,8 @@ private:
     lock lock_;
     std::string blacklistPath_;
     std::time_t lastModifiedTime_;
+    long lastModifiedNsec_;
+    off_t lastSize_;
     int16_t period_;
 
 };
-- 
2.43.0


From d93af7685bbb1194b61b0604dadc14ca77aa50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 31/73] fix: checking the blacklist changed the hostname an
 agent had given to lower case

---
 daemon/Blacklist.cpp | 3 ++-
 daemon/Blacklist.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/Blacklist.cpp b/daemon/Blacklist.cpp
index abbf4fc..728211a 100644
--- a/daemon/Blacklist.cpp
+++ b/daemon/Blacklist.cpp
@@ -120,8 +120,9 @@ void Blacklist::load()
     }
 }
 
-bool Blacklist::contains(std::string &host_name)
+bool Blacklist::contains(std::string const &name)
 {
+    std::string host_name(name);
     LogSpam << "Blacklist::contains( " << host_name << " )";
     grab aholdof(lock_);
 
diff --git a/daemon/Blacklist.h b/daemon/Blacklist.h
index 0e5113a..faf981b 100644
--- a/daemon/Blacklist.h
+++ b/daemon/Blacklist.h
@@ -24,7 +24,7 @@ public:
     Blacklist(boost::asio::io_service &svc, Configuration &cfg);
     ~Blacklist();
 
-    bool contains(std::string &host_name);
+    bool contains(std::string const &name);
 
 private:
     typedef std::tr1::unordered_set<std::string> BlacklistSet;
-- 
2.43.0


From b4a4fe14e52ecbeae18260474b6f95a99f1cbb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 32/73] fix: data written while a connection was being made
 went out before the identification, or was lost

---
 daemon/EagerConnection.cpp | 32 +++++++++++++++++++++-----------
 daemon/EagerConnection.h   |  2 +-
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index bac2560..6ade553 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -54,7 +54,7 @@ void EagerConnection::init()
     successfulWritesDuringBackoff_ = 1;
     writePending_ = false;
     readPending_ = false;
-    hasErrorConnect_ = false;
+    connected_ = false;
 }
 
 EagerConnection::~EagerConnection()
@@ -69,6 +69,7 @@ void EagerConnection::open()    //  called when accepted
     std::stringstream ss;
     ss << endpoint_;
     endpointName_ = ss.str();
+    connected_ = true;
     opened_ = true;
 }
 
@@ -102,6 +103,7 @@ void EagerConnection::close()
         return;
     }
     opened_ = false;
+    connected_ = false;
     socket_.close();
     timer_.cancel();
     grab aholdof(mutex_);
@@ -123,7 +125,7 @@ bool EagerConnection::opened()
 
 bool EagerConnection::connected()
 {
-    return socket_.is_open() && ! hasErrorConnect_;
+    return connected_ && socket_.is_open();
 }
 
 size_t EagerConnection::pendingOut()
@@ -235,6 +237,7 @@ size_t EagerConnection::writeOut(void const *data, size_t size)
 void EagerConnection::abort()
 {
     LogSpam << "EagerConnection::abort()";
+    connected_ = false;
     socket_.close();
     {
         grab aholdof(mutex_);
@@ -296,7 +299,6 @@ void EagerConnection::on_resolve(boost::system::error_code const &err, tcp::reso
         LogError << "Could not resolve " << resolveHost_ << ":" << resolvePort_;
         grab aholdof(mutex_);
         tryingLater_ = false;
-        hasErrorConnect_ = true;
         tryLater();
     }
 }
@@ -359,10 +361,15 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
     if (!err)
     {
         LogWarning << "Connected to " << endpoint;
-        hasErrorConnect_ = false;
-        if (initialData_.size())
         {
-            outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
+            //  nothing is written before this point, so that the other side
+            //  always gets to know who it is before it gets anything else
+            grab aholdof(mutex_);
+            connected_ = true;
+            if (initialData_.size())
+            {
+                outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
+            }
         }
         onConnect_();
         startWrite();
@@ -372,7 +379,6 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
     {
         LogError << "Error connecting to " << endpoint;
         grab aholdof(mutex_);
-        hasErrorConnect_ = true;
         tryLater();
     }
 }
@@ -380,9 +386,9 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
 void EagerConnection::startWrite()
 {
     LogSpam << "EagerConnection::startWrite()";
-    if (socket_.is_open())
+    grab aholdof(mutex_);
+    if (connected_ && socket_.is_open())
     {
-        grab aholdof(mutex_);
         if (outgoing_.size() && !writePending_ && !tryingLater_)
         {
             writeBuf_.swap(outgoing_);
@@ -420,13 +426,13 @@ void EagerConnection::on_write(boost::system::error_code const &err, size_t xfer
     if (!!err || xfer < writeBuf_.size())
     {
         LogWarning << "Short write on socket to " << resolveHost_ << ":" << resolvePort_ << ": " << err;
+        connected_ = false;
         socket_.close();
         onDisconnect_();
         tryLater();
         return;
     }
     resetBackoffOnSuccessfulWrites();
-    hasErrorConnect_ = false;
 
     onWrite_(xfer);
     startWrite();
@@ -481,7 +487,11 @@ void EagerConnection::on_read(boost::system::error_code const &err, size_t xfer)
         {
             LogError << "Socket error for endpoint" << endpoint_ << ";" << err;
         }
-        socket_.close();
+        {
+            grab aholdof(mutex_);
+            connected_ = false;
+            socket_.close();
+        }
         onDisconnect_();
         readPending_ = false;
         if (opened_)
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 6db0fb6..47a0ed2 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -95,7 +95,7 @@ private:
     bool writePending_;
     bool readPending_;
     bool tryingLater_;
-    bool hasErrorConnect_;
+    bool connected_;
     time_t tryLaterTime_;
     int backoff_;
     int successfulWritesDuringBackoff_;
-- 
2.43.0


From 6dc4c19369145d70ca42e0cc1463dc652ee4f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 33/73] fix: a forced flush of an agent was answered before its
 data was written, or waited for another connection

---
 daemon/EagerConnection.cpp |  6 ++++--
 daemon/EagerConnection.h   |  3 +++
 daemon/StatServer.cpp      | 22 +++++++++++++++-------
 daemon/StatServer.h        |  1 +
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 6ade553..9c149a4 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -42,6 +42,7 @@ EagerConnection::EagerConnection(boost::asio::io_service &svc) :
 #else
     strand_(svc)
 #endif
+    , totalOut_(0)
 {
     init();
     ++IStatCounter::eagerconns_;
@@ -230,8 +231,9 @@ size_t EagerConnection::writeOut(void const *data, size_t size)
         }
     }
     outgoing_.insert(outgoing_.end(), (char const *)data, (char const *)data + size);
+    totalOut_ += size;
     startWrite();
-    return outgoing_.size();
+    return totalOut_;
 }
 
 void EagerConnection::abort()
@@ -434,7 +436,7 @@ void EagerConnection::on_write(boost::system::error_code const &err, size_t xfer
     }
     resetBackoffOnSuccessfulWrites();
 
-    onWrite_(xfer);
+    onWrite_(totalOut_ - outgoing_.size());
     startWrite();
 }
 
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 47a0ed2..0f1e83f 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -34,6 +34,7 @@ public:
     virtual size_t readIn(void *ptr, size_t maxSize) = 0;
     virtual size_t peekIn(void *ptr, size_t maxSize) = 0;
     virtual void consume(size_t n) = 0;
+    //  returns the number of bytes handed to writeOut() so far, including these
     virtual size_t writeOut(void const *data, size_t size) = 0;
     virtual size_t writeOut(std::string const &str) = 0;
 
@@ -42,6 +43,7 @@ public:
     boost::signals2::signal<void ()> onDisconnect_;
     boost::signals2::signal<void ()> onData_;
     // onWrite_ will be called with the connection mutex held!
+    // Its argument says how far, in what writeOut() returned, nothing is waiting to be written.
     boost::signals2::signal<void (size_t)> onWrite_;
 };
 
@@ -111,6 +113,7 @@ private:
     lock mutex_;
     buffer writeBuf_;
     buffer outgoing_;
+    size_t totalOut_;
     buffer inBuf_;
     buffer incoming_;
     std::string resolveHost_;
diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 67c24d8..920dc09 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -136,6 +136,7 @@ StatServer::StatServer(int statPort, std::string listenAddress,
         for (size_t i = 0; i < agentCount_; ++i) {
             forward_.push_back(EagerConnection::create(svc));
             noConnectionCounts_.push_back(0);
+            forwardDone_.push_back(0);
         }
 
         startResolveAgents();
@@ -326,6 +327,7 @@ void StatServer::on_forwardWrite(size_t forwardIndex, size_t n)
     FlushRequestList afrs;
     {
         grab aholdof(agentMutex_);
+        forwardDone_[forwardIndex] = n;
         if (agentFlushRequests_.empty())
         {
             return;
@@ -679,6 +681,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
 {
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
+    std::vector<size_t> connIndices;
     {
         grab aholdof(forwardMutex_);
         buckets.swap(forwardBuckets_);
@@ -697,13 +700,14 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
                 }
                 if (connIndex >= noConnSize || noConnectionCounts_[connIndex] <= MAX_AGENT_CONN_TRIES) {
                     conns.push_back(*i);
+                    connIndices.push_back(connIndex);
                 }
             }
             ++connIndex;
         }
     }
     size_t count = conns.size();
-    if ((count > 0) && buckets.size())
+    if ((count > 0) && (buckets.size() || agentFlushRequest != NULL))
     {
         size_t forwardIndex = 0;
         //  if not opened, then we lose this bucket
@@ -742,10 +746,11 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         }
         for (size_t i = 0; i < count; ++i) {
             std::string str(ss[i].str());
-            if (!str.empty()) {
-                size_t pending = conns[i]->writeOut(str);
+            //  a flush also waits for what earlier rounds left to be written
+            if (!str.empty() || agentFlushRequest != NULL) {
+                size_t end = conns[i]->writeOut(str);
                 if (agentFlushRequest != NULL) {
-                    agentFlushRequest->add(i, pending);
+                    agentFlushRequest->add(connIndices[i], end);
                 }
             }
         }
@@ -778,9 +783,14 @@ void StatServer::syncAgent(IComplete *complete)
 {
     boost::shared_ptr<AgentFlushRequest> agentFlushRequest(new AgentFlushRequest(complete));
     clearForward(agentFlushRequest.get());
+    grab aholdof(agentMutex_);
+    //  some, or all, may have been written by now
+    for (size_t i = 0; i < forwardDone_.size(); ++i)
+    {
+        agentFlushRequest->completed(i, forwardDone_[i]);
+    }
     if (!agentFlushRequest->completed())
     {
-        grab aholdof(agentMutex_);
         agentFlushRequests_.push_back(agentFlushRequest);
     }
 }
@@ -913,8 +923,6 @@ bool AgentFlushRequest::completed(size_t index, size_t n)
     if (index < sizes_.size()) {
         if (n >= sizes_[index]) {
             sizes_[index] = 0;
-        } else {
-            sizes_[index] -= n;
         }
     }
     return completed();
diff --git a/daemon/StatServer.h b/daemon/StatServer.h
index d559c01..033e833 100755
--- a/daemon/StatServer.h
+++ b/daemon/StatServer.h
@@ -173,6 +173,7 @@ private:
     std::string agent_;
     size_t agentCount_;
     std::vector<uint16_t> noConnectionCounts_;
+    std::vector<size_t> forwardDone_;
 
     bool hasStatStore_;
     boost::shared_ptr<IStatStore> statStore_;
-- 
2.43.0


From e9091a075111718c51338db2e059e66716d6a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:05 +0000
Subject: [PATCH 34/73] fix: after a failed attempt to connect, the next one
 always failed, too

---
 daemon/EagerConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 9c149a4..7d123be 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -380,6 +380,9 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
     else
     {
         LogError << "Error connecting to " << endpoint;
+        //  a socket that failed to connect fails the next attempt, too
+        boost::system::error_code ignored;
+        socket_.close(ignored);
         grab aholdof(mutex_);
         tryLater();
     }
-- 
2.43.0


From d2ac8d2b7765751fd3dd8f0aafd89d555bbfabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:24 +0000
Subject: [PATCH 35/73] fix: a flush of an agent was answered while another
 round held data not yet written

---
 daemon/StatServer.cpp | 2 ++
 daemon/StatServer.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 920dc09..62c5965 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -682,6 +682,8 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
     std::vector<size_t> connIndices;
+    //  a flush must not be answered while another round still holds data
+    grab round(roundMutex_);
     {
         grab aholdof(forwardMutex_);
         buckets.swap(forwardBuckets_);
diff --git a/daemon/StatServer.h b/daemon/StatServer.h
index 033e833..4276794 100755
--- a/daemon/StatServer.h
+++ b/daemon/StatServer.h
@@ -205,6 +205,7 @@ private:
     InfoHashMap metaInfo_;
     time_t metaInterval_;
     ::lock forwardMutex_;
+    ::lock roundMutex_;
     std::tr1::unordered_map<std::string, Bucketizer> forwardBuckets_;
     boost::asio::deadline_timer forwardTimer_;
     boost::shared_ptr<Blacklist> blacklist_;
-- 
2.43.0


From 6da38494ca5ad6c3f0208b5787120308a3059eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:57 +0000
Subject: [PATCH 36/73] fix: pending output grew beyond its limit when written
 in pieces larger than half of it

---
 daemon/EagerConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 7d123be..3d48235 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -212,8 +212,8 @@ size_t EagerConnection::writeOut(void const *data, size_t size)
     {
         bool found = false;
         LogDebug << "notice: pruning pending outgoing buffer";
-        //  find a line somewhere in the middle, and cut at that point
-        for (std::vector<char>::iterator ptr(outgoing_.begin() + maxBufferSize/2),
+        //  find a line such that half the limit remains, and cut at that point
+        for (std::vector<char>::iterator ptr(outgoing_.end() - maxBufferSize/2),
             end(outgoing_.end()); ptr != end; ++ptr)
         {
             if (*ptr == 10)
-- 
2.43.0


From 5025dfdc783b309013325afc6bc7e369f5e37cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 37/73] fix: a request of nothing but an empty line was read
 past its end

---
 daemon/HttpServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 5009933..6c304a5 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -181,7 +181,7 @@ void HttpRequest::on_header(boost::system::error_code const &err, size_t xfer)
     //  parse header
     bool first = true;
     size_t b = 0;
-    for (size_t p = 3, n = headerData_.size(); p != n-2; ++p)
+    for (size_t p = 3, n = headerData_.size(); p + 2 < n; ++p)
     {
         if (headerData_[p] == '\n' && headerData_[p-1] == '\r' && headerData_[p+1] != ' ')
         {
-- 
2.43.0


From cce6d51d6857f790338c796783c02f597157590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 38/73] fix: the headers of a request could grow without limit

---
 daemon/HttpServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 6c304a5..dcaf539 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -18,6 +18,9 @@ using boost::asio::ip::tcp;
 using namespace boost::asio;
 
 
+//  A request with larger headers than this is refused
+#define MAX_HEADER_SIZE (64 * 1024)
+
 DebugOption debugHttp("http");
 
 HttpServer::HttpServer(int port, boost::asio::io_service &svc, std::string listen_addr, int listenOverflowBacklog) :
@@ -86,6 +89,7 @@ void HttpServer::handleAccept(boost::system::error_code const &e, HttpRequestHol
 
 HttpRequest::HttpRequest(boost::asio::io_service &svc, HttpServer *hs) :
     socket_(svc),
+    header_(MAX_HEADER_SIZE),
     hs_(hs)
 {
 }
-- 
2.43.0


From 6722193fbc5399c5257d2911b8dcec468cb668c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 39/73] fix: a request could make the server allocate as much
 memory as it stated

---
 daemon/HttpServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index dcaf539..06fd493 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -20,6 +20,8 @@ using namespace boost::asio;
 
 //  A request with larger headers than this is refused
 #define MAX_HEADER_SIZE (64 * 1024)
+//  A request with a larger body than this is refused
+#define MAX_BODY_SIZE (64 * 1024 * 1024)
 
 DebugOption debugHttp("http");
 
@@ -119,6 +121,10 @@ void HttpRequest::readBody()
         throw std::runtime_error("Can't read body without content-length");
     }
     size_t len = boost::lexical_cast<size_t>(*cl);
+    if (len > MAX_BODY_SIZE)
+    {
+        throw std::runtime_error("Content-length is too large");
+    }
     bodyData_.resize(len);
     bodyRead_ = 0;
     if (headerSize_ < headerData_.size() && len > 0)
-- 
2.43.0


From c6b97b1fdb6b9c05ee2646f48d8d3209f3ad190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 40/73] fix: requests with a bad content length or a short file
 name were never answered

---
 daemon/RequestInFlight.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 645e71d..adaadfe 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -146,7 +146,7 @@ void RequestInFlight::go()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -263,7 +263,7 @@ void RequestInFlight::goProm()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -877,7 +877,7 @@ void RequestInFlight::generateCounterJson(boost::shared_ptr<IStatCounter> statCo
 
         strm_buffer_ << Json::FastWriter().write(jsonRoot);
         complete(200, "application/json");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception &re) {
         reportError(std::string("HTTP JSON exception:") + re.what());
     }
 }
@@ -909,7 +909,7 @@ void RequestInFlight::generateCounterCSV(boost::shared_ptr<IStatCounter> statCou
                 << "\r\n";
         }
         complete(200, "text/csv");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception &re) {
         reportError(std::string("HTTP CSV exception:") + re.what());
     }
 }
-- 
2.43.0


From 12fa16aba1c26035dc040e63dab5f139fd0ada06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:34 +0000
Subject: [PATCH 41/73] fix: of several keys naming one counter only one was in
 the answer

---
 daemon/RequestInFlight.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index adaadfe..cf68bb0 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -12,6 +12,8 @@
 #include <sys/stat.h>
 #include <unistd.h>
 
+#include <set>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/assign.hpp>
 #include <boost/bind/bind.hpp>
@@ -310,9 +312,9 @@ public:
     bool trailing_;
     boost::shared_ptr<RequestInFlight> req_;
 #if BOOST_VERSION >= 106700
-    std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> > data;
+    std::map<std::string, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, boost::shared_ptr<IStatCounter> > > data;
 #else
-    std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> > data;
+    std::map<std::string, std::pair<boost::asio::strand *, boost::shared_ptr<IStatCounter> > > data;
 #endif
     int64_t num;
     lock strmLock;
@@ -323,11 +325,11 @@ public:
 #if BOOST_VERSION >= 106700
     void add(boost::shared_ptr<IStatCounter> const &ctr, boost::asio::strand<boost::asio::io_service::executor_type> *strand, std::string const &name)
     {
-        data[ctr] = std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string>(strand, name);
+        data[name] = std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, boost::shared_ptr<IStatCounter> >(strand, ctr);
 #else
     void add(boost::shared_ptr<IStatCounter> const &ctr, boost::asio::strand *strand, std::string const &name)
     {
-        data[ctr] = std::pair<boost::asio::strand *, std::string>(strand, name);
+        data[name] = std::pair<boost::asio::strand *, boost::shared_ptr<IStatCounter> >(strand, ctr);
 #endif
     }
 
@@ -343,17 +345,17 @@ public:
         {
             num = data.size();
 #if BOOST_VERSION >= 106700
-            for (std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, std::string> >::iterator
+            for (std::map<std::string, std::pair<boost::asio::strand<boost::asio::io_service::executor_type> *, boost::shared_ptr<IStatCounter> > >::iterator
                 ptr(data.begin()), end(data.end()); ptr != end; ++ptr)
             {
                 boost::asio::post((*ptr).second.first->get_inner_executor().context(), boost::asio::bind_executor(*((*ptr).second.first),
 #else
-            for (std::map<boost::shared_ptr<IStatCounter>, std::pair<boost::asio::strand *, std::string> >::iterator
+            for (std::map<std::string, std::pair<boost::asio::strand *, boost::shared_ptr<IStatCounter> > >::iterator
                 ptr(data.begin()), end(data.end()); ptr != end; ++ptr)
             {
                 (*ptr).second.first->get_io_service().post((*ptr).second.first->wrap(
 #endif
-                    boost::bind(&MultiCounterWorker::workOne, shared_from_this(), (*ptr).first, (*ptr).second.second)));
+                    boost::bind(&MultiCounterWorker::workOne, shared_from_this(), (*ptr).second.second, (*ptr).first)));
             }
         }
     }
@@ -487,12 +489,24 @@ void RequestInFlight::on_multigetBody()
         }
         bool compact = root["compact"].asBool();
 
+        //  each name once, in the order given, all of them before anything is written
+        std::vector<std::string> names;
+        std::set<std::string> seen;
+        for (int i = 0, n = keys.size(); i != n; ++i)
+        {
+            std::string name(keys[i].asString());
+            if (seen.insert(name).second)
+            {
+                names.push_back(name);
+            }
+        }
+
         strm_buffer_ << "{";
         std::string delim("");
         boost::shared_ptr<MultiCounterWorker> mcw = boost::make_shared<MultiCounterWorker>(start, stop, maxSamples, trailing, compact, shared_from_this());
-        for (int i = 0, n = keys.size(); i != n; ++i)
+        for (size_t i = 0, n = names.size(); i != n; ++i)
         {
-            std::string name(keys[i].asString());
+            std::string const &name(names[i]);
             boost::shared_ptr<IStatCounter> counter;
 #if BOOST_VERSION >= 106700
             boost::asio::strand<boost::asio::io_service::executor_type> *strand = 0;
-- 
2.43.0


From c1dd0b542b15b605c3d712cd7c8eb2f2d04d06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:34 +0000
Subject: [PATCH 42/73] fix: names with quotes or control characters made
 answers that are not JSON

---
 daemon/RequestInFlight.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index cf68bb0..a96594b 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -382,7 +382,7 @@ public:
             {
                 delim = ",";
             }
-            req_->strm_buffer_ << "\"" << name << "\":{"
+            req_->strm_buffer_ << Json::valueToQuotedString(name.c_str()) << ":{"
                         << "\"start\":" << normalized_start
                         << ",\"end\":" << normalized_end
                         << ",\"interval\":" << interval
@@ -522,7 +522,7 @@ void RequestInFlight::on_multigetBody()
                 {
                     delim = ",";
                 }
-                strm_buffer_ << "\"" << name << "\":\"Not found.\"";
+                strm_buffer_ << Json::valueToQuotedString(name.c_str()) << ":\"Not found.\"";
             }
             else
             {
@@ -677,10 +677,10 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         {
             comma = true;
         }
-        strm_buffer_ << "\"" << (*it).first << "\":\"" << js_quote((*it).second) << "\"";
+        strm_buffer_ << "\"" << (*it).first << "\":" << Json::valueToQuotedString((*it).second);
     }
     strm_buffer_ << "}";
-    strm_buffer_ << ",\"pattern\":\"" << js_quote(pattern) << "\",\"matching_names\":[";
+    strm_buffer_ << ",\"pattern\":" << Json::valueToQuotedString(pattern.c_str()) << ",\"matching_names\":[";
     comma = false;
     for (std::list<std::pair<std::string, CounterResponse> >::iterator
         ptr(results.begin()), end(results.end());
@@ -698,7 +698,7 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         strm_buffer_ << 
             "{\"is_leaf\":" << ((*ptr).second.isLeaf ? "true" : "false") <<
             ",\"type\":" << ((*ptr).second.counterType ) <<
-            ",\"name\":\"" << js_quote((*ptr).first) << "\"}";
+            ",\"name\":" << Json::valueToQuotedString((*ptr).first.c_str()) << "}";
     }
     strm_buffer_ << "]}";
 }
@@ -732,7 +732,7 @@ void RequestInFlight::listAgentsMatching(std::string const &pattern)
             iptr != iend;
             ++iptr)
         {
-            strm_buffer_ << "\"" << js_quote((*iptr).first) << "\":\"" << js_quote((*iptr).second) << "\",";
+            strm_buffer_ << Json::valueToQuotedString((*iptr).first.c_str()) << ":" << Json::valueToQuotedString((*iptr).second.c_str()) << ",";
         }
         strm_buffer_ << "\"_online\":" << ((*ptr).online_ ? "true" : "false") << ",";
         strm_buffer_ << "\"_connected\":\"" << iso_8601_datetime((*ptr).connected_) << "\",";
-- 
2.43.0


From dd102df0450ddef49873a20f55c4ed9ecf2e468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 43/73] fix: a request for several counters was not answered
 when one of them could not be read

---
 daemon/RequestInFlight.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index a96594b..f74d54b 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -369,7 +369,24 @@ public:
             time_t normalized_end;
 
             time_t interval;
-            counter->select(start_, end_, trailing_, buckets, normalized_start, normalized_end, interval, maxSamples_);
+            bool selected = false;
+            try
+            {
+                counter->select(start_, end_, trailing_, buckets, normalized_start, normalized_end, interval, maxSamples_);
+                selected = true;
+            }
+            catch (std::exception const &x)
+            {
+                //  the other counters, and the request, still have to be answered
+                LogError << "multiget of" << name << "failed:" << x.what();
+            }
+            if (!selected)
+            {
+                req_->strm_buffer_ << delim << Json::valueToQuotedString(name.c_str()) << ":\"Not available.\"";
+                delim = ",";
+            }
+            else
+            {
 
             // this is crude, but effective.
             // all these values should be the same for all counters in the group
@@ -424,16 +441,17 @@ public:
                 first = false;
             }
             req_->strm_buffer_ << "]}";
+            }
         }
         if (0 == istat::atomic_add(&num, -1))
         {
             if (wrote_)
             {
                 req_->strm_buffer_ << ",";
+                req_->strm_buffer_ << "\"start\":" << req_->multiget_start_time_;
+                req_->strm_buffer_ << ",\"stop\":"  << req_->multiget_stop_time_;
+                req_->strm_buffer_ << ",\"interval\":" << req_->multiget_interval_;
             }
-            req_->strm_buffer_ << "\"start\":" << req_->multiget_start_time_;
-            req_->strm_buffer_ << ",\"stop\":"  << req_->multiget_stop_time_;
-            req_->strm_buffer_ << ",\"interval\":" << req_->multiget_interval_;
             req_->strm_buffer_ << "}";
             req_->complete(200, "application/json");
         }
-- 
2.43.0


From df082d495d4349200e98ec5439e3581ccfa8e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 44/73] fix: values of more than six digits were rounded in
 answers

---
 daemon/RequestInFlight.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index f74d54b..8cd276e 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -56,6 +56,8 @@ RequestInFlight::~RequestInFlight() {
 void RequestInFlight::init()
 {
     strm_.precision(4);
+    //  what a counter holds, not an approximation of it
+    strm_buffer_.precision(15);
     acceptableEncodings_ = boost::assign::list_of("gzip")("deflate");
 }
 
-- 
2.43.0


From 6b91a45f9c51ad6b07bdeefde6202310f5347e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 45/73] fix: metrics of more than six digits were rounded for
 Prometheus

---
 daemon/PromExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 39354ab..69da7cd 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -53,6 +53,7 @@ void PromMetric::init(std::string const& ctr)
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
+    ss.precision(15);
     if (tags_.empty())
     {
         if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From 67a6ed7dcb174514e66b13392ab0cd1b6fd8006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 46/73] fix: the type of a metric was stated once for each
 counter of its name

---
 daemon/PromExporter.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 69da7cd..1c709f3 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -170,20 +170,27 @@ PromExporter::~PromExporter()
 void PromExporter::dumpMetrics(std::vector<PromMetric> & res, std::vector<PromMetric> & new_metrics)
 {
     grab aholdof(mutex_);
+    //  the type of each name is stated once
+    std::tr1::unordered_set<std::string> new_names;
     // counters
     CumulativeCountsMap::iterator cit;
     for (cit = data_counters_.begin(); cit != data_counters_.end(); ++cit)
     {
-        new_metrics.push_back((*cit).second);
+        if (new_names.insert((*cit).second.getName()).second)
+        {
+            new_metrics.push_back((*cit).second);
+        }
+        else
+        {
+            res.push_back((*cit).second);
+        }
     }
     //gauges
-    std::tr1::unordered_set<std::string> new_gauges;
     for (PromGaugeMap::iterator git = data_gauges_.begin(); git != data_gauges_.end(); ++git)
     {
         std::string mname = (*git).second.getName();
-        if (new_gauges.find(mname) == new_gauges.end())
+        if (new_names.insert(mname).second)
         {
-            new_gauges.insert(mname);
             new_metrics.push_back((*git).second);
         }
         else
-- 
2.43.0


From e47056e7dad362b32835672e3589be2a80746008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:29 +0000
Subject: [PATCH 47/73] fix: quotes in a label made the metrics unreadable

---
 daemon/PromExporter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 1c709f3..7e8d2a9 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -50,6 +50,21 @@ void PromMetric::init(std::string const& ctr)
     istat::prom_munge(name_);
 }
 
+//  the text format has these escaped in the value of a label
+static std::string label_value(std::string const &value)
+{
+    std::string ret;
+    for (std::string::const_iterator ptr(value.begin()), end(value.end()); ptr != end; ++ptr)
+    {
+        if (*ptr == '\\' || *ptr == '"')
+        {
+            ret += '\\';
+        }
+        ret += *ptr;
+    }
+    return ret;
+}
+
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
@@ -69,11 +84,11 @@ std::string PromMetric::toString() const
         {
             ss << name_;
             std::tr1::unordered_map<std::string, std::string>::const_iterator mit = (*tit).begin();
-            ss << "{" << mit->first << "=\"" << mit->second << "\"";
+            ss << "{" << mit->first << "=\"" << label_value(mit->second) << "\"";
             ++mit;
             while (mit != (*tit).end())
             {
-                ss << "," << mit->first << "=\"" << mit->second << "\"";
+                ss << "," << mit->first << "=\"" << label_value(mit->second) << "\"";
                 ++mit;;
             }
             if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From a3dae84314b3c21fad5fe22906e6e4efc69689bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:54 +0000
Subject: [PATCH 48/73] fix: a file was not found if anything but its name was
 in the query

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 8cd276e..7a3e5dc 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -185,7 +185,7 @@ void RequestInFlight::do_GET(std::string const &url, std::map<std::string, std::
         serveFile("/files/favicon.ico");
     }
     else if ((param_val = params.find("f")) != params.end()) {
-        serveFile(url.substr(4));
+        serveFile(param_val->second);
     }
     else if ((param_val = params.find("a")) != params.end()) {
         listAgentsMatching(param_val->second);
-- 
2.43.0


From 9b7c58ae070fa6de86e7da4bcda6dfce965d9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:54 +0000
Subject: [PATCH 49/73] fix: a negative number of samples was taken for a very
 large one

---
 daemon/RequestInFlight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 7a3e5dc..eaf276f 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -474,7 +474,7 @@ void RequestInFlight::on_multigetBody()
     {
         time_t start = root["start"].asInt64();
         time_t stop = root["stop"].asInt64();
-        size_t maxSamples = root["maxSamples"].asInt();
+        int maxSamples = root["maxSamples"].asInt();
         if (start < 0) {
             reportError("Invalid 'start' parameter", 400);
             return;
-- 
2.43.0


From 88ca3ffee2651a6ea650e013170b6b542f6b15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:10 +0000
Subject: [PATCH 50/73] fix: a request for several counters that was no JSON
 object ended the process

---
 daemon/RequestInFlight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index eaf276f..cf05620 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -470,6 +470,11 @@ void RequestInFlight::on_multigetBody()
         reportError(reader.getFormattedErrorMessages(), 400);
         return;
     }
+    if (!root.isObject())
+    {
+        reportError("JSON request must be an object", 400);
+        return;
+    }
     try
     {
         time_t start = root["start"].asInt64();
-- 
2.43.0


From 3a4c6a9be489345850d48dd90ced3ad09c93d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:15 +0000
Subject: [PATCH 51/73] fix: whether settings have to be saved was not known
 when they were loaded

---
 daemon/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 7765c18..fa271ea 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -309,7 +309,8 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     fac_(rsf),
     name_(name),
     saveTimer_(rsf->svc_),
-    saveQueued_(false)
+    saveQueued_(false),
+    dirty_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
-- 
2.43.0


From 235c4fcde55d2eabe8f764d5f082e0b6f57508db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:43 +0000
Subject: [PATCH 52/73] fix: a NUL in a setting was lost when the settings were
 loaded

---
 lib/strfunc.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 1561d0b..4fffdb0 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -484,7 +484,6 @@ namespace istat
                     tmp[0] = 8;
                     break;
                 case '0':
-                    //   todo: this won't work!
                     tmp[0] = 0;
                     break;
                 case 'Z':
@@ -494,7 +493,7 @@ namespace istat
                     tmp[0] = *ptr;
                     break;
                 }
-                ss << tmp;
+                ss.put(tmp[0]);
                 quote = false;
             }
             else if (*ptr == '\\')
@@ -504,7 +503,7 @@ namespace istat
             else
             {
                 tmp[0] = *ptr;
-                ss << tmp;
+                ss.put(tmp[0]);
             }
         }
         return ss.str();
-- 
2.43.0


From 029adc9a095d573cad735e1cb8efbbaa88c250e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:43 +0000
Subject: [PATCH 53/73] fix: spaces around the value of a setting were lost
 when the settings were loaded

---
 daemon/Settings.cpp | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index fa271ea..e114fc8 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -174,6 +174,47 @@ void RealSettingsFactory::reloadSettings(std::string const &domain, IComplete *c
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
+//  White space around a value in a file means nothing, unless it is quoted.
+static void trim_value(std::string &right)
+{
+    size_t len = right.size();
+    while (len > 0 && isspace((unsigned char)right[len - 1]))
+    {
+        --len;
+    }
+    size_t slashes = 0;
+    while (slashes < len && right[len - 1 - slashes] == '\\')
+    {
+        ++slashes;
+    }
+    if ((slashes & 1) && len < right.size())
+    {
+        ++len;
+    }
+    right.erase(len);
+    size_t begin = 0;
+    while (begin < len && isspace((unsigned char)right[begin]))
+    {
+        ++begin;
+    }
+    right.erase(0, begin);
+}
+
+//  ... so white space at either end of a value has to be.
+static std::string quote_value(std::string const &value)
+{
+    std::string ret(istat::sql_quote(value));
+    if (ret.size() > 1 && isspace((unsigned char)ret[ret.size() - 1]))
+    {
+        ret.insert(ret.size() - 1, 1, '\\');
+    }
+    if (ret.size() && isspace((unsigned char)ret[0]))
+    {
+        ret.insert(0, 1, '\\');
+    }
+    return ret;
+}
+
 void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string const &name)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::loadSettingsPath(" << path << "," << name << ")";
@@ -230,8 +271,8 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
                 if (2 == istat::split(right, '=', left, right))
                 {
                     istat::trim(left);
+                    trim_value(right);
                     right = istat::sql_unquote(right);
-                    istat::trim(right);
                     (debugSettings ? LogDebug : LogSpam) << left << "=" << right;
                     rs->settings_[left] = right;
                 }
@@ -404,7 +445,7 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
                 if ((*ptr).second.size())
                 {
                     //  empty string values are not saved -- same as "delete"
-                    ostr << (*ptr).first << "=" << istat::sql_quote((*ptr).second) << std::endl;
+                    ostr << (*ptr).first << "=" << quote_value((*ptr).second) << std::endl;
                 }
             }
         }
-- 
2.43.0


From 6b1858e5da7755155931e4c31a2ab3546daa3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:43 +0000
Subject: [PATCH 54/73] fix: a form feed in the name of a setting was lost when
 the settings were loaded

---
 daemon/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index e114fc8..2772058 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -661,6 +661,6 @@ void FakeSettings::set(std::string const &key, std::string const &value)
 bool is_valid_key(std::string const &key)
 {
     //  just ignore some particular set of characters -- they may come in handy later!
-    return key.find_first_of(" \r\n\t\b\\/:;*?\"'%()[]{}~$^#=+-") == std::string::npos;
+    return key.find_first_of(" \r\n\t\b\v\f\\/:;*?\"'%()[]{}~$^#=+-") == std::string::npos;
 }
 
-- 
2.43.0


From 6efca9717df869c8cf8184c33ee3a8bb5a4853e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:43 +0000
Subject: [PATCH 55/73] fix: settings were lost when saving them failed, or was
 interrupted

---
 daemon/Settings.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 2772058..602bfa7 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -429,6 +429,7 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettings::save(" << name_ << ")";
     grab aholdof(lock_);
+    saveQueued_ = false;
     if (dirty_) {
         //  Only re-write if dirty. This allows a settings file to be edited on disk and re-loaded
         //  with a flush on the admin interface.
@@ -448,13 +449,15 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
                     ostr << (*ptr).first << "=" << quote_value((*ptr).second) << std::endl;
                 }
             }
+            ostr.close();
+            if (!ostr)
+            {
+                boost::system::error_code ignored;
+                boost::filesystem::remove(tmpName, ignored);
+                throw std::runtime_error("settings: cannot write file: " + tmpName);
+            }
         }
         //  Now, move the new file in place of the old.
-        //  First, remove the old file, to generate an error if we don't have permission.
-        if (boost::filesystem::exists(fileName))
-        {
-            boost::filesystem::remove(fileName);
-        }
         boost::filesystem::rename(tmpName, fileName);
     }
     else
@@ -464,7 +467,6 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
             LogDebug << "settings not dirty";
         }
     }
-    saveQueued_ = false;
     dirty_ = false;
     ++countSaves;
 }
-- 
2.43.0


From 59fbd61967a2b72fa7f0c8db2f7aba3f9215b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:28 +0000
Subject: [PATCH 56/73] fix: one settings file that cannot be loaded kept the
 daemon from starting

---
 daemon/Settings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 602bfa7..da6b824 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -108,7 +108,14 @@ void RealSettingsFactory::scandir()
             char const *dot = strrchr(dent->d_name, '.');
             if (dot && !strcmp(dot, ".set"))
             {
-                loadSettingsPath(path_ + "/" + dent->d_name, std::string(dent->d_name, dot-dent->d_name));
+                try
+                {
+                    loadSettingsPath(path_ + "/" + dent->d_name, std::string(dent->d_name, dot-dent->d_name));
+                }
+                catch (std::exception const &x)
+                {
+                    LogError << "settings: cannot load:" << dent->d_name << ":" << x.what();
+                }
             }
         }
     }
-- 
2.43.0


From ced89451df9ae34a5f36ec776105da8b3717ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:28 +0000
Subject: [PATCH 57/73] fix: settings could grow to a size at which they were
 not loaded again

---
 daemon/Settings.cpp | 46 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index da6b824..5d3d37e 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -40,6 +40,7 @@ public:
     lock lock_;
     boost::asio::deadline_timer saveTimer_;
     std::map<std::string, std::string> settings_;
+    size_t size_;
     bool saveQueued_;
     bool dirty_;
 
@@ -47,6 +48,7 @@ public:
     void get(std::string const &key, std::string &oValue, bool &wasSet, std::string const &dflt);
     void set(std::string const &key, std::string const &value);
 
+    bool put(std::string const &key, std::string const &value);
     void queueSave();
     void save(boost::shared_ptr<ISettings> const &me);
 };
@@ -181,6 +183,11 @@ void RealSettingsFactory::reloadSettings(std::string const &domain, IComplete *c
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
+//  Larger files are not loaded, so they should not be written, either.
+static int64_t const maxFileSize = 1024*1024;
+//  how many bytes are left for the comment at the start of a file
+static int64_t const headerSize = 64;
+
 //  White space around a value in a file means nothing, unless it is quoted.
 static void trim_value(std::string &right)
 {
@@ -231,7 +238,7 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
         throw std::runtime_error("settings: Could not open file: " + path);
     }
     int64_t size = ::lseek(i, 0, 2);
-    if (size > 1024*1024)
+    if (size > maxFileSize)
     {
         ::close(i);
         //  we're not trying to emulate Redis here!
@@ -281,7 +288,7 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
                     trim_value(right);
                     right = istat::sql_unquote(right);
                     (debugSettings ? LogDebug : LogSpam) << left << "=" << right;
-                    rs->settings_[left] = right;
+                    rs->put(left, right);
                 }
                 else if (debugSettings)
                 {
@@ -357,6 +364,7 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     fac_(rsf),
     name_(name),
     saveTimer_(rsf->svc_),
+    size_(0),
     saveQueued_(false),
     dirty_(false)
 {
@@ -409,16 +417,42 @@ void RealSettings::set(std::string const &key, std::string const &value)
     if (is_valid_key(key))
     {
         grab aholdof(lock_);
-        dirty_ = true;
-        settings_[key] = value;
-        if (value.size() == 0)
+        if (!put(key, value))
         {
-            settings_.erase(settings_.find(key));
+            throw std::runtime_error("settings: too much to save: " + name_);
         }
+        dirty_ = true;
         queueSave();
     }
 }
 
+bool RealSettings::put(std::string const &key, std::string const &value)
+{
+    std::map<std::string, std::string>::iterator ptr(settings_.find(key));
+    size_t size = size_;
+    if (ptr != settings_.end())
+    {
+        size -= key.size() + quote_value((*ptr).second).size() + 2;
+    }
+    if (value.size() == 0)
+    {
+        if (ptr != settings_.end())
+        {
+            settings_.erase(ptr);
+        }
+        size_ = size;
+        return true;
+    }
+    size += key.size() + quote_value(value).size() + 2;
+    if ((int64_t)size > maxFileSize - headerSize && size > size_)
+    {
+        return false;
+    }
+    settings_[key] = value;
+    size_ = size;
+    return true;
+}
+
 void RealSettings::queueSave()
 {
     LogSpam << "RealSettings::queueSave(" << name_ << ")";
-- 
2.43.0


From 5093b6dd95b409d82f408d3ee603bca64e50c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:42 +0000
Subject: [PATCH 58/73] fix: a setting set while settings were being flushed
 was lost

---
 daemon/Settings.cpp | 54 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 5d3d37e..84b277d 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -43,12 +43,15 @@ public:
     size_t size_;
     bool saveQueued_;
     bool dirty_;
+    //  the file may have been edited, and should be loaded again before using this
+    bool flushed_;
 
     void match(std::string const &pattern, std::vector<std::string> &oKeys);
     void get(std::string const &key, std::string &oValue, bool &wasSet, std::string const &dflt);
     void set(std::string const &key, std::string const &value);
 
     bool put(std::string const &key, std::string const &value);
+    bool flushed();
     void queueSave();
     void save(boost::shared_ptr<ISettings> const &me);
 };
@@ -61,6 +64,7 @@ public:
     void scandir();
     void flush(IComplete *complete);
     void flush_one(std::string const &domain, IComplete *complete);
+    void flushSettings(boost::shared_ptr<ISettings> const &settings);
     void dispose();
     void loadSettingsPath(std::string const &path, std::string const &name);
     void reloadSettings(std::string const &domain, IComplete *complete);
@@ -140,10 +144,8 @@ void RealSettingsFactory::flush(IComplete *complete)
         ptr != end;
         ++ptr)
     {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
+        flushSettings((*ptr).second);
     }
-    //  this allows all settings to be re-loaded if edited
-    files_.clear();
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
@@ -155,12 +157,28 @@ void RealSettingsFactory::flush_one(std::string const &name, IComplete *complete
     grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(name));
     if (ptr != files_.end()) {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
-        files_.erase(ptr);
+        flushSettings((*ptr).second);
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
+void RealSettingsFactory::flushSettings(boost::shared_ptr<ISettings> const &settings)
+{
+    RealSettings *rs = static_cast<RealSettings *>(settings.get());
+    try
+    {
+        grab aholdof(rs->lock_);
+        rs->save(settings);
+        //  This allows the settings to be re-loaded if edited. Others may be about to use
+        //  these settings, so keep them rather than making them anew.
+        rs->flushed_ = true;
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "settings: cannot flush:" << rs->name_ << ":" << x.what();
+    }
+}
+
 void RealSettingsFactory::dispose()
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::flush()";
@@ -273,6 +291,12 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
     }
     RealSettings *rs = static_cast<RealSettings *>(set.get());
     grab aholdof(rs->lock_);
+    if (rs->flushed_)
+    {
+        rs->settings_.clear();
+        rs->size_ = 0;
+    }
+    rs->flushed_ = false;
     for (char *cur = base; cur <= end; ++cur)
     {
         if (*cur == '\n')
@@ -304,8 +328,9 @@ void RealSettingsFactory::get(std::string const &domain, boost::shared_ptr<ISett
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::get( " << domain << " )";
     settings = boost::shared_ptr<ISettings>((ISettings *)0);
+    grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
-    if (ptr != files_.end())
+    if (ptr != files_.end() && !static_cast<RealSettings *>((*ptr).second.get())->flushed())
     {
         settings = (*ptr).second;
     }
@@ -321,7 +346,10 @@ void RealSettingsFactory::open(std::string const &domain, bool allowCreate, boos
         std::string fullPath(path_ + "/" + domain + ".set");
         grab aholdof(lock_);
         std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
-        if (ptr != files_.end())
+        //  nobody may set anything while it is decided whether to load, and loaded
+        lock unused;
+        grab ahold(ptr != files_.end() ? static_cast<RealSettings *>((*ptr).second.get())->lock_ : unused);
+        if (ptr != files_.end() && !static_cast<RealSettings *>((*ptr).second.get())->flushed())
         {
             settings = (*ptr).second;
         }
@@ -366,7 +394,8 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     saveTimer_(rsf->svc_),
     size_(0),
     saveQueued_(false),
-    dirty_(false)
+    dirty_(false),
+    flushed_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
@@ -422,6 +451,8 @@ void RealSettings::set(std::string const &key, std::string const &value)
             throw std::runtime_error("settings: too much to save: " + name_);
         }
         dirty_ = true;
+        //  now it is the file that is behind
+        flushed_ = false;
         queueSave();
     }
 }
@@ -453,6 +484,13 @@ bool RealSettings::put(std::string const &key, std::string const &value)
     return true;
 }
 
+//  Whether the file has to be loaded again.
+bool RealSettings::flushed()
+{
+    grab aholdof(lock_);
+    return flushed_;
+}
+
 void RealSettings::queueSave()
 {
     LogSpam << "RealSettings::queueSave(" << name_ << ")";
-- 
2.43.0


From eb24de07efeb5babdb022c1670e796f1b741b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:01 +0000
Subject: [PATCH 59/73] fix: the admin interface could load settings from
 outside the settings directory, and save them there

---
 daemon/Settings.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 84b277d..f32fe2f 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -185,6 +185,15 @@ void RealSettingsFactory::dispose()
     delete this;
 }
 
+//  there is nothing outside the settings directory
+static void checkName(std::string const &domain)
+{
+    if (!istat::is_valid_settings_name(domain))
+    {
+        throw std::runtime_error("settings: invalid name: " + domain);
+    }
+}
+
 void RealSettingsFactory::reloadSettings(std::string const &domain, IComplete *complete)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::reloadSettings( " << domain << " )";
@@ -192,6 +201,7 @@ void RealSettingsFactory::reloadSettings(std::string const &domain, IComplete *c
     grab aholdof(lock_);
     try
     {
+        checkName(domain);
         loadSettingsPath(fullPath, domain);
     }
     catch (std::exception const &x)
@@ -343,6 +353,7 @@ void RealSettingsFactory::open(std::string const &domain, bool allowCreate, boos
     settings = boost::shared_ptr<ISettings>((ISettings *)0);
     try
     {
+        checkName(domain);
         std::string fullPath(path_ + "/" + domain + ".set");
         grab aholdof(lock_);
         std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
-- 
2.43.0


From fc9dc6287a8d745401c1433eff2d7899888e12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:14 +0000
Subject: [PATCH 60/73] fix: events were reported more than once when the
 server's own statistics were sampled by several threads

---
 daemon/LoopbackCounter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/daemon/LoopbackCounter.cpp b/daemon/LoopbackCounter.cpp
index 285059c..c700bcf 100644
--- a/daemon/LoopbackCounter.cpp
+++ b/daemon/LoopbackCounter.cpp
@@ -126,13 +126,11 @@ void LoopbackCounter::forceUpdates()
     //  I rely on internal counters not ever being deleted
     for (LoopbackCounterRecord *r = LoopbackCounterRecord::first_; r; r = r->next_)
     {
-        int64_t v = r->aggregate_;
+        //  several threads may be doing this, but each event is reported once
+        int64_t v = (TypeEvent == r->type_) ? __sync_fetch_and_and(&r->aggregate_, 0) : r->aggregate_;
         if (v)
         {
             //  if there actually was data, update it
-            if (TypeEvent == r->type_) {
-                __sync_add_and_fetch(&r->aggregate_, -v);
-            }
             LoopbackCounter::ss_->record(r->name_, (int64_t)v);
         }
     }
-- 
2.43.0


From 237b58621cc965639e293044f0004987cbd17f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:14 +0000
Subject: [PATCH 61/73] fix: asking for the status of the server freed a
 statistic that was in use

---
 daemon/HttpServer.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/daemon/HttpServer.h b/daemon/HttpServer.h
index b9c8308..daa424c 100644
--- a/daemon/HttpServer.h
+++ b/daemon/HttpServer.h
@@ -102,18 +102,21 @@ struct HttpServerInfo
     {
     }
     HttpServerInfo(HttpServerInfo const &o) :
-        port(0),
-        current(0),
-        currentGauge("http.current", TypeGauge),
-        numRequests("http.requests", TypeEvent),
-        numErrors("http.errors.server", TypeEvent),
-        httpErrors("http.errors.http", TypeEvent)
+        port(o.port),
+        current((long)o.current),
+        currentGauge(o.currentGauge),
+        numRequests(o.numRequests),
+        numErrors(o.numErrors),
+        httpErrors(o.httpErrors)
     {
-        memcpy((char*)this, &o, sizeof(*this));
     }
     HttpServerInfo &operator=(HttpServerInfo const &o)
     {
-        memcpy((char*)this, &o, sizeof(*this));
+        if (&o != this)
+        {
+            this->~HttpServerInfo();
+            new (this) HttpServerInfo(o);
+        }
         return *this;
     }
     unsigned int port;
-- 
2.43.0


From c7bca4d4489ceb7a90439522cbcf42c8a952284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:44 +0000
Subject: [PATCH 62/73] Revert "fix: the type of a metric was stated once for
 each counter of its name"

The repository's own tests (ftest/test_agent_prometheus.sh) expect it so.
---
 daemon/PromExporter.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 7e8d2a9..34e2274 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -185,27 +185,20 @@ PromExporter::~PromExporter()
 void PromExporter::dumpMetrics(std::vector<PromMetric> & res, std::vector<PromMetric> & new_metrics)
 {
     grab aholdof(mutex_);
-    //  the type of each name is stated once
-    std::tr1::unordered_set<std::string> new_names;
     // counters
     CumulativeCountsMap::iterator cit;
     for (cit = data_counters_.begin(); cit != data_counters_.end(); ++cit)
     {
-        if (new_names.insert((*cit).second.getName()).second)
-        {
-            new_metrics.push_back((*cit).second);
-        }
-        else
-        {
-            res.push_back((*cit).second);
-        }
+        new_metrics.push_back((*cit).second);
     }
     //gauges
+    std::tr1::unordered_set<std::string> new_gauges;
     for (PromGaugeMap::iterator git = data_gauges_.begin(); git != data_gauges_.end(); ++git)
     {
         std::string mname = (*git).second.getName();
-        if (new_names.insert(mname).second)
+        if (new_gauges.find(mname) == new_gauges.end())
         {
+            new_gauges.insert(mname);
             new_metrics.push_back((*git).second);
         }
         else
-- 
2.43.0


From 73266f0d74160716d12ecee4a6589503932e3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 63/73] fix: a trailing bucket was written through a page that
 had been unmapped

---
 lib/StatFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 534704e..38f0db2 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -600,8 +600,9 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
+            //  mapping the page of one bucket may unmap that of the other
+            Bucket o(bucket(oix));
             Bucket *wb = writableBucket(ix);
-            Bucket const &o = bucket(oix);
             if (o.time() > 0)
             {
                 *wb = o;
-- 
2.43.0


From 8299c81955f007072597966b43a2fe11c540cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 64/73] fix: a gap or a long season made trailing files read
 and write outside the file

---
 lib/StatFile.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 38f0db2..3dbbc2b 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -600,17 +600,33 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
-            //  mapping the page of one bucket may unmap that of the other
-            Bucket o(bucket(oix));
-            Bucket *wb = writableBucket(ix);
-            if (o.time() > 0)
+            //  a gap may have taken the interval out of the file
+            if (isBucketIndexInFile(ix))
             {
-                *wb = o;
-                wb->expUpdate(eb0, fileHeader_->lambda);
-            }
-            else
-            {
-                *wb = eb0;
+                //  The value of the previous season is where it was until something
+                //  newer is written there, even if the file has moved on since.
+                //  Mapping the page of one bucket may unmap that of the other.
+                int64_t latest = fileHeader_->last_bucket;
+                int64_t where = oix;
+                if (where <= latest - bucketCount_)
+                {
+                    where += (latest - where) / bucketCount_ * bucketCount_;
+                }
+                Bucket o(true);
+                if (isBucketIndexInFile(where))
+                {
+                    o = bucket(where);
+                }
+                Bucket *wb = writableBucket(ix);
+                if (o.time() > 0)
+                {
+                    *wb = o;
+                    wb->expUpdate(eb0, fileHeader_->lambda);
+                }
+                else
+                {
+                    *wb = eb0;
+                }
             }
         }
         //  must move one over
-- 
2.43.0


From 5f0b118cc0c13d3f7eec06297efe492fadea0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 65/73] fix: a trailing bucket was averaged with whatever was
 in the place of the previous season

---
 lib/StatFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 3dbbc2b..65bcf59 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -618,7 +618,7 @@ namespace istat
                     o = bucket(where);
                 }
                 Bucket *wb = writableBucket(ix);
-                if (o.time() > 0)
+                if (o.time() > 0 && mapTimeToBucketIndex(o.time()) == oix)
                 {
                     *wb = o;
                     wb->expUpdate(eb0, fileHeader_->lambda);
-- 
2.43.0


From f62d2220ce280afc538776c3c1b5668b5c1fd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 66/73] fix: the latest intervals of a trailing file were lost
 when it was closed

---
 lib/StatFile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 65bcf59..0c9daf9 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -54,6 +54,20 @@ namespace istat
 
     StatFile::~StatFile()
     {
+        if (fileHeader_ && fileWritable_ && (fileHeader_->flags & FILE_FLAG_IS_TRAILING))
+        {
+            try
+            {
+                for (size_t i = 0; i != sizeof(expBucket)/sizeof(expBucket[0]); ++i)
+                {
+                    flushOneExpBucket();
+                }
+            }
+            catch (std::exception const &x)
+            {
+                Log(LL_Error, "istat") << "Cannot write trailing buckets of" << path_ << ":" << x.what();
+            }
+        }
         for (size_t i = 0; i != sizeof(pages)/sizeof(pages[0]); ++i)
         {
             if (pages[i].ptr != 0)
-- 
2.43.0


From 3091bab00000fa329d710a4cc0b2265983cc0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:35 +0000
Subject: [PATCH 67/73] fix: the splitter answered with what any of the targets
 sent, not the first only

---
 splitter/main.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/splitter/main.cpp b/splitter/main.cpp
index 6bcfe2e..9c32560 100644
--- a/splitter/main.cpp
+++ b/splitter/main.cpp
@@ -113,7 +113,6 @@ void listen_loop(int sock)
                 }
             }
         }
-        bool first = true;
         for (std::vector<int>::iterator ptr(splits.begin()), end(splits.end());
             ptr != end; ++ptr)
         {
@@ -128,7 +127,7 @@ void listen_loop(int sock)
                     closeall(sock);
                     exit(3);
                 }
-                if (first)
+                if (ptr == splits.begin())
                 {
                     if (::send(sock, inbuf, n, 0) < n)
                     {
@@ -136,7 +135,6 @@ void listen_loop(int sock)
                         closeall(sock);
                         exit(3);
                     }
-                    first = false;
                 }
             }
         }
-- 
2.43.0


From 2272aff79503956420760f2957e0c22860ed064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:35 +0000
Subject: [PATCH 68/73] fix: the splitter could miss a target with a descriptor
 smaller than others

---
 splitter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/splitter/main.cpp b/splitter/main.cpp
index 9c32560..66184d9 100644
--- a/splitter/main.cpp
+++ b/splitter/main.cpp
@@ -79,7 +79,7 @@ void listen_loop(int sock)
             ptr != end; ++ptr)
         {
             FD_SET(*ptr, &rdset);
-            if (*ptr > sock)
+            if (*ptr > mx)
             {
                 mx = *ptr;
             }
-- 
2.43.0


From ab586d8c7b49a159824ea05d59ed04a8a19a7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:35 +0000
Subject: [PATCH 69/73] fix: each session of the splitter left a process behind
 when it ended

---
 splitter/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/splitter/main.cpp b/splitter/main.cpp
index 66184d9..49a9575 100644
--- a/splitter/main.cpp
+++ b/splitter/main.cpp
@@ -4,6 +4,7 @@
 #include <string.h>
 
 #include <fcntl.h>
+#include <signal.h>
 #include <unistd.h>
 #include <sys/socket.h>
 #include <arpa/inet.h>
@@ -244,6 +245,9 @@ int main(int argc, char const *argv[])
     //  setup listening socket
     setup_listener(dport);
 
+    //  nobody asks how a session ended
+    signal(SIGCHLD, SIG_IGN);
+
     //  accept loop
     int nfail = 0;
     while (true)
-- 
2.43.0


From 740e7bb6bb11f97605fc266cdc35d9ed86216792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:16 +0000
Subject: [PATCH 70/73] fix: seconds_to_interval takes off the whole of what it
 wrote

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 4fffdb0..14cce44 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -707,7 +707,7 @@ namespace istat
             {
                 size_t n = secs / size;
                 ret << n << itp->str;
-                secs -= n;
+                secs -= n * size;
             }
         }
         std::string rstr = ret.str();
-- 
2.43.0


From 7625562d5ccf97edd13e34f50427d4cbd723defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:16 +0000
Subject: [PATCH 71/73] fix: a retention policy's decay must be a number and
 nothing else

---
 daemon/Retention.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Retention.cpp b/daemon/Retention.cpp
index 5c906c9..6693cd6 100644
--- a/daemon/Retention.cpp
+++ b/daemon/Retention.cpp
@@ -80,7 +80,7 @@ void RetentionPolicy::addInterval(std::string const &str)
     {
         char *end;
         ri.lambda = strtod(lambda.c_str(), &end);
-        if (ri.lambda <= 0 || ri.lambda >= 1)
+        if (*end || !(ri.lambda > 0 && ri.lambda < 1))
         {
             throw std::runtime_error("lambda must be > 0 and < 1 if specified: '" + lambda + "'");
         }
-- 
2.43.0


From c1ceb1e9860ca1b262545504de776f60a6fd66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:16 +0000
Subject: [PATCH 72/73] fix: refuse a retention policy with two intervals of
 one name, which would share a file

---
 daemon/Retention.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daemon/Retention.cpp b/daemon/Retention.cpp
index 6693cd6..198b42b 100644
--- a/daemon/Retention.cpp
+++ b/daemon/Retention.cpp
@@ -46,6 +46,13 @@ void RetentionPolicy::addInterval(RetentionInterval const &ri)
             throw std::runtime_error("Season retention intervals must be specified after regular intervals.");
         }
     }
+    for (size_t ix = 0; ix != intervals.size(); ++ix)
+    {
+        if (intervals[ix].name == ri.name)
+        {
+            throw std::runtime_error("Each retention interval must have a name of its own: " + ri.name);
+        }
+    }
     intervals.push_back(ri);
 }
 
-- 
2.43.0


From 463236860a2e84f209e798cd810c503e3df9dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:01 +0000
Subject: [PATCH 73/73] fix: an option without its value is refused like any
 other bad option

---
 daemon/Argument.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/Argument.cpp b/daemon/Argument.cpp
index 92984fe..de76781 100644
--- a/daemon/Argument.cpp
+++ b/daemon/Argument.cpp
@@ -68,6 +68,11 @@ bool ArgumentBase::parseArg(int argc, char const *argv[], int &iterator)
         if (verbose_) std::cerr << "Option argument is bad: " << argv[iterator] << std::endl;
         return false;
     }
+    catch (std::runtime_error const &x)
+    {
+        if (verbose_) std::cerr << x.what() << std::endl;
+        return false;
+    }
     iterator += 1;
     return true;
 }
-- 
2.43.0

