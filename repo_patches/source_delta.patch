From 2bc82d13ab8b2fed783873f38af7321035b2a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 01/18] fix: visit reports a truncated data record instead of
 throwing

A data file ending inside a record made visit read past the end of its
stream: an assertion, or std::logic_error in release builds, instead of an
error code.
---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From 1e454bbf99b038fa3f34062077166f06e1c34852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 02/18] fix: verify accepts spill records of every valid size

The fast algorithm rejected full spill records when the block size is less
than 116, and took spill_bytes_tot from whichever bucket it read last (or from
uninitialized memory). The normal algorithm rejected spill records left in the
data file by a key file with another block size, which rekey leaves in place.
---
 include/nudb/impl/verify.ipp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..3db90f8 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -24,6 +24,20 @@ namespace nudb {
 
 namespace detail {
 
+// Returns `true` if a spill record can have the given size.
+// Spill records left behind by a rekey may have been written
+// for a block size other than that of the current key file.
+//
+inline
+bool
+valid_spill_size(nsize_t size)
+{
+    auto const empty_size = bucket_size(0);
+    auto const entry_size = bucket_size(1) - empty_size;
+    return size >= empty_size &&
+        (size - empty_size) % entry_size == 0;
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -155,14 +169,12 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -174,7 +186,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,8 +481,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
@@ -489,7 +500,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 7be828d1c47b40e442afec9899bac678553523d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 03/18] fix: rekey syncs the data and key files before removing
 its log

---
 include/nudb/impl/rekey.ipp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..6fa37d0 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -235,6 +235,20 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    // The log may only go away after everything
+    // it protects has reached the device.
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
+    if(ec)
+        return;
+    lf.trunc(0, ec);
+    if(ec)
+        return;
+    lf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From 8e13557b228ecd758817b59481c3c7c7bf30dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 04/18] fix: rekey with an item count of zero makes a key file
 with one bucket

---
 include/nudb/impl/rekey.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 6fa37d0..11c4b5d 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -83,9 +83,9 @@ rekey(
     kh.block_size = blockSize;
     kh.load_factor = std::min<std::size_t>(
         static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
+    kh.buckets = std::max<std::size_t>(1, static_cast<std::size_t>(
         std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+            bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From 27a0f3d64f782e36ddcdba41c4018f8429a8b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 05/18] fix: rekey rejects block sizes and load factors it
 cannot store

---
 include/nudb/impl/rekey.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 11c4b5d..ebea3b5 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,18 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    // Also rejects NaN, and values which are stored as zero
+    if(! (loadFactor < 1.f && 65536.0f * loadFactor >= 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
-- 
2.43.0


From c37efc2a4bd8af234b63097a4910de7762874613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 06/18] fix: recovery of an interrupted rekey can itself be
 interrupted

---
 include/nudb/impl/recover.ipp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..3d6a1db 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -77,6 +77,7 @@ recover(
     }
 
     // Open log file
+    bool eraseKey = false;
     File lf{args...};
     lf.open(file_mode::append, log_path, ec);
     if(ec == errc::no_such_file_or_directory)
@@ -186,8 +187,15 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // Empty the partial key file but erase it only after the
+        // log is gone: without the key file an interrupted recovery
+        // could not be restarted, and rekey refuses to run when
+        // there is a log.
+        eraseKey = true;
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
     }
@@ -202,6 +210,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(eraseKey)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From 78f5aa3ea9b1344f0b484e3631887c67afc832e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 07/18] fix: flush does not write the error of a failed store
 again while it is read

---
 include/nudb/impl/basic_store.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..f46ff1e 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -766,6 +766,10 @@ flush()
     beast::unit_test::dstream dout{std::cout};
 #endif
     {
+        // After an error the store stays failed, and
+        // other threads may already be reading ec_.
+        if(ecb_)
+            return;
         unique_lock_type m{m_};
         s_->when = clock_type::now();
         if(! s_->p1.empty())
-- 
2.43.0


From f4b7d372d4fb61df2a0e5367abc4e8ecf33397c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:44 +0000
Subject: [PATCH 08/18] fix: stop_all waits for a concurrent stop_all

---
 include/nudb/impl/context.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nudb/impl/context.ipp b/include/nudb/impl/context.ipp
index beb7058..2808b4b 100644
--- a/include/nudb/impl/context.ipp
+++ b/include/nudb/impl/context.ipp
@@ -36,7 +36,15 @@ stop_all()
 {
     std::unique_lock<std::mutex> lock(m_);
     if(stop_)
+    {
+        // Another thread is stopping the context
+        cv_w_.wait(lock,
+            [&]
+            {
+                return ! stop_;
+            });
         return;
+    }
     stop_ = true;
     cv_f_.notify_all();
     cv_w_.notify_all();
@@ -52,6 +60,7 @@ stop_all()
         lock.lock();
     }
     stop_ = false;
+    cv_w_.notify_all();
 }
 
 void
-- 
2.43.0


From 2c51aa91d7391543c9a3c951010c858d42151f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 09/18] fix: sizes over 32 bits in damaged files are an error

---
 include/nudb/detail/field.hpp     | 6 ++++--
 include/nudb/impl/basic_store.ipp | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..4ce3b64 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -171,8 +171,10 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // The size may come from a damaged file
+    u = v <= std::numeric_limits<std::size_t>::max() ?
+        static_cast<std::size_t>(v) :
+        std::numeric_limits<std::size_t>::max();
 }
 
 // write field to ostream
diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index f46ff1e..bf1c656 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -376,6 +376,11 @@ fetch(
             auto const item = b[i];
             if(item.hash != h)
                 break;
+            if(item.size > field<std::uint32_t>::max)
+            {
+                ec = error::size_mismatch;
+                return;
+            }
             // Data Record
             auto const len =
                 s_->kh.key_size +       // Key
-- 
2.43.0


From b878d789f42f309bddd7aaca27e2e12607321980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 10/18] fix: recover refuses log records that do not fit the
 key file

---
 include/nudb/detail/bucket.hpp |  5 +++++
 include/nudb/impl/recover.ipp  | 15 ++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 3d6a1db..9987e16 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -140,26 +140,23 @@ recover(
             }
             if(ec)
                 return;
-            nsize_t n;
-            {
-                std::uint64_t v;
-                // VFALCO This should have been a uint32_t
-                read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-                n = static_cast<nsize_t>(v);
-            }
+            // VFALCO This should have been a uint32_t
+            std::uint64_t n;
+            read<std::uint64_t>(is, n);     // Index
             b.read(r, ec);                  // Bucket
             if(ec == error::short_read)
             {
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
+            if(n >= kh.buckets)
             {
                 ec = error::invalid_log_index;
                 return;
-- 
2.43.0


From 1a968b1a6731b58dfd164716354809ca5e00d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 11/18] fix: fast verify checks bucket counts and entry sizes

---
 include/nudb/impl/verify.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 3db90f8..58e20f8 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -356,6 +356,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
@@ -438,7 +443,12 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
-                            goto found;
+                        {
+                            if(item.size == size)
+                                goto found;
+                            ec = error::size_mismatch;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 089cf0d5a2e651c740f7ff150a6b358676c00c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 12/18] fix: normal verify reports superfluous keys

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 58e20f8..a3efcf0 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -261,6 +261,13 @@ verify_normal(
             progress(work, nwork);
         }
     }
+    // Every value was found, so there are as many
+    // keys as values unless some key is superfluous.
+    if(info.key_count != info.value_count)
+    {
+        ec = error::duplicate_value;
+        return;
+    }
     float sum = 0;
     for(size_t i = 0; i < info.hist.size(); ++i)
         sum += info.hist[i] * (i + 1);
-- 
2.43.0


From b53d0e2b9ce23b86757add0e4117af661825e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 13/18] fix: circular spill chains in damaged files are an
 error

---
 include/nudb/detail/bucket.hpp    | 21 +++++++++++++++++++++
 include/nudb/impl/basic_store.ipp |  6 +++---
 include/nudb/impl/verify.ipp      |  8 ++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 4f96fcd..052d664 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -153,6 +153,14 @@ public:
     void
     read(File& f, noff_t, error_code& ec);
 
+    // Read a bucket from its spill record in the data file.
+    // A spill can only refer to a spill which was written
+    // before it, anything else could be a circular chain.
+    //
+    template<class File>
+    void
+    read_spill(File& f, noff_t offset, error_code& ec);
+
     // Read a compact bucket
     //
     template<class File>
@@ -364,6 +372,19 @@ read(File& f, noff_t offset, error_code& ec)
     }
 }
 
+template<class _>
+template<class File>
+void
+bucket_t<_>::
+read_spill(File& f, noff_t offset, error_code& ec)
+{
+    read(f, offset, ec);
+    if(ec)
+        return;
+    if(spill_ >= offset)
+        ec = error::invalid_spill_size;
+}
+
 template<class _>
 template<class File>
 void
diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index bf1c656..f4c9ee7 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -405,7 +405,7 @@ fetch(
         buf1.reserve(s_->kh.block_size);
         b = bucket(s_->kh.block_size,
             buf1.get());
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return;
     }
@@ -451,7 +451,7 @@ exists(
         if(! spill)
             break;
         b = bucket(s_->kh.block_size, pb);
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return false;
     }
@@ -526,7 +526,7 @@ split(
                 if(ec)
                     return;
             }
-            tmp.read(s_->df, spill, ec);
+            tmp.read_spill(s_->df, spill, ec);
             if(ec)
                 return;
             for(std::size_t i = 0; i < tmp.size(); ++i)
diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index a3efcf0..283186b 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -141,7 +141,7 @@ verify_normal(
                         ec = error::orphaned_value;
                         return;
                     }
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
@@ -244,7 +244,7 @@ verify_normal(
                 }
                 if(! b.spill())
                     break;
-                b.read(df, b.spill(), ec);
+                b.read_spill(df, b.spill(), ec);
                 if(ec)
                     return;
                 spill = true;
@@ -373,7 +373,7 @@ verify_fast(
             auto spill = b.spill();
             while(spill != 0)
             {
-                tmp.read(df, spill, ec);
+                tmp.read_spill(df, spill, ec);
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -465,7 +465,7 @@ verify_fast(
                         return;
                     }
                     b = tmp;
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
-- 
2.43.0


From 908cd816707064a934b67342d6333ff793df6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:43 +0000
Subject: [PATCH 14/18] fix: create rejects key sizes and load factors it
 cannot store

---
 include/nudb/impl/create.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..bb25976 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,8 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 ||
+        key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
@@ -73,7 +74,8 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    // Must not be stored as zero. Also false for NaN.
+    if(! (65536.0f * load_factor >= 1.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From 61cdd857bc6fa6a540cf917760d68f1fe8802f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 15/18] fix: create and recover use the caller's File type
 throughout

---
 include/nudb/impl/create.ipp  | 8 ++++----
 include/nudb/impl/recover.ipp | 2 +-
 include/nudb/native_file.hpp  | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index bb25976..07dd7b8 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -150,11 +150,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        erase_file<File>(dat_path);
     if(ekf)
-        erase_file(key_path);
+        erase_file<File>(key_path);
     if(elf)
-        erase_file(log_path);
+        erase_file<File>(log_path);
 }
 
 template<
@@ -175,7 +175,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 9987e16..6e55d89 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From 65591447641946436400ed7605fa7df5dcf0224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 16/18] fix: posix_file reports the error of posix_fadvise and
 keeps no file after it

---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..6d1ce11 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // Returns the error, does not set errno
+    int const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // Returns the error, does not set errno
+    int const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From 45aa0b288bdccc151ca93e609894230d31e5c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 17/18] fix: recover refuses the rekey log of another database

---
 include/nudb/impl/recover.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 6e55d89..22de501 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -104,6 +104,22 @@ recover(
     verify<Hasher>(lh, ec);
     if(ec)
         return;
+    // The log must belong to this data file
+    if(lh.uid != dh.uid)
+    {
+        ec = error::uid_mismatch;
+        return;
+    }
+    if(lh.appnum != dh.appnum)
+    {
+        ec = error::appnum_mismatch;
+        return;
+    }
+    if(lh.key_size != dh.key_size)
+    {
+        ec = error::key_size_mismatch;
+        return;
+    }
     if(lh.key_file_size == 0)
         goto trunc_files;
     {
-- 
2.43.0


From 72c3e3e7c5c25491a92ca5ef3ebedd5fc09caa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 18/18] fix: recover keeps the key file of another database

---
 include/nudb/impl/recover.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 22de501..78b661d 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -121,7 +121,23 @@ recover(
         return;
     }
     if(lh.key_file_size == 0)
+    {
+        // Interrupted rekey. The key file may be incomplete,
+        // but if it is not then it must belong to the log.
+        key_file_header kh;
+        read(kf, kh, ec);
+        if(ec)
+            return;
+        error_code ev;
+        verify<Hasher>(kh, ev);
+        if(! ev)
+        {
+            verify<Hasher>(kh, lh, ec);
+            if(ec)
+                return;
+        }
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
-- 
2.43.0

