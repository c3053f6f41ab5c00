From d00a0521dc4edd4253cdf2c00b56cf97484943b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 01/42] fix: cancel an atomic operation on read/write prefixes
 only

---
 src/dbzero/workspace/Workspace.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 7eddfd3..834945b 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -686,9 +686,11 @@ namespace db0
     void Workspace::cancelAtomic()
     {
         assert(m_atomic_context_ptr);
-        // end atomic with all open fixtures
+        // cancel atomic with all open read/write fixtures (the only ones which take part in it)
         for (auto &[uuid, fixture] : m_fixtures) {
-            fixture->cancelAtomic();
+            if (fixture->getAccessType() == AccessType::READ_WRITE) {
+                fixture->cancelAtomic();
+            }
         }
         m_atomic_context_ptr = nullptr;
     }
-- 
2.43.0


From d01420d25e2a959ef0eaacb6cbe34a955bdcea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 02/42] fix: refuse an explicit commit inside an atomic
 operation

---
 src/dbzero/workspace/Workspace.cpp | 9 +++++++++
 src/dbzero/workspace/Workspace.hpp | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 834945b..ccf7c98 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -483,6 +483,7 @@ namespace db0
     
     bool Workspace::commit()
     {
+        assertNoAtomicContext("commit");
         bool result = false;
         for (auto &[uuid, fixture] : m_fixtures) {
             if (fixture->getAccessType() == AccessType::READ_WRITE) {
@@ -535,8 +536,16 @@ namespace db0
         return BaseWorkspace::drop(prefix_name, if_exists);
     }
 
+    void Workspace::assertNoAtomicContext(const char *operation) const
+    {
+        if (m_atomic_context_ptr) {
+            THROWF(db0::InputException) << "Operation '" << operation << "' not allowed inside an atomic context" << THROWF_END;
+        }
+    }
+
     bool Workspace::commit(const PrefixName &prefix_name)
     {
+        assertNoAtomicContext("commit");
         auto fixture = findFixture(prefix_name);
         if (!fixture) {
             THROWF(db0::InputException) << "Prefix: " << prefix_name << " not found";
diff --git a/src/dbzero/workspace/Workspace.hpp b/src/dbzero/workspace/Workspace.hpp
index 16fc152..1cdc409 100644
--- a/src/dbzero/workspace/Workspace.hpp
+++ b/src/dbzero/workspace/Workspace.hpp
@@ -343,6 +343,9 @@ namespace db0
 
         std::optional<std::size_t> getLangCacheSize() const;
         std::shared_ptr<WorkspaceView> getWorkspaceHeadView() const;        
+
+        // partial results of an atomic operation must never be committed
+        void assertNoAtomicContext(const char *operation) const;
     };
     
 }
\ No newline at end of file
-- 
2.43.0


From 6a1fddbe309f4618ff5e2a4930c6c6914488156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 03/42] fix: keep the cached page version when a page is first
 changed by an atomic operation

---
 src/dbzero/core/memory/PrefixCache.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index f856613..0ee38cf 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -103,7 +103,8 @@ namespace db0
         bool is_volatile = access_mode[AccessOptions::no_flush];
             // Try upgrading the unused lock to the write state
             // this is to avoid CoW in a writer process
-            if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+            // NOTE: never done for volatile access, the version must remain available if the atomic operation gets cancelled
+            if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)            
             if (dp_lock->allowReuse() && dp_lock.use_count() == (dp_lock->isRecycled() ? 1 : 0) + 1) {
@@ -222,7 +223,8 @@ namespace db0
         bool is_volatile = access_mode[AccessOptions::no_flush];
         // Try upgrading the unused lock to the write state
         // this is to avoid CoW in a writer process
-        if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+        // NOTE: never done for volatile access, the version must remain available if the atomic operation gets cancelled
+        if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // Unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)
             // note that, on upgrade, the residual lock must be refreshed as well
-- 
2.43.0


From 3ec02477934a4b74f6a253703171c51955796a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 04/42] fix: write every page of a wide range in a diff flush

The pages of a wide range are read back as one unit, which requires all of
them to carry the same mutation. The diff flush skipped the pages without
changes, so an object larger than a page could no longer be read after being
partially updated.
---
 src/dbzero/core/memory/WideLock.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/memory/WideLock.cpp b/src/dbzero/core/memory/WideLock.cpp
index ee7537a..cece611 100644
--- a/src/dbzero/core/memory/WideLock.cpp
+++ b/src/dbzero/core/memory/WideLock.cpp
@@ -130,14 +130,13 @@ namespace db0
                                 storage.write(m_address, m_state_num, unwritten_size, m_data.data());
                                 unwritten_size = 0;
                             }
-                            // NOTE: DP needs not to be flushed if there are no diffs
-                            if (!diffs.empty()) {
-                                if (!storage.tryWriteDiffs(
-                                    m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr, diffs)) 
-                                {
-                                    // write as full-DP if unable to write diffs
-                                    storage.write(m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr);                                    
-                                }
+                            // NOTE: DPs without diffs must be flushed as well (as empty diff-DPs), since all DPs
+                            // of a wide range must share the same mutation (see findUniqueMutation)
+                            if (!storage.tryWriteDiffs(
+                                m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr, diffs)) 
+                            {
+                                // write as full-DP if unable to write diffs
+                                storage.write(m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr);                                    
                             }
                             first_write = false;
                         } else {
-- 
2.43.0


From 7a5eb91c50913d5532666af20e3ae2e9a02ce27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 05/42] fix: do not reuse DRAM chunks of published pages within
 the releasing flush

---
 src/dbzero/core/storage/DRAM_IOStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 48e7065..a5ea823 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -211,6 +211,9 @@ namespace db0
             return std::nullopt;
         };
 
+        // NOTE: locations released by this flush hold the last published page versions, therefore must not be
+        // reused before this flush gets published (otherwise unable to recover from a crash)
+        std::vector<std::uint64_t> released_chunks;
         auto update_page_location = [&, this](std::uint64_t page_num, std::uint64_t address) {
             // remove address from reusable
             {
@@ -222,8 +225,8 @@ namespace db0
             auto dram_page = m_page_map.find(page_num);
             if (dram_page != m_page_map.end()) {
                 assert(dram_page->second.m_address != address);
-                // add the old page location to reusable addresses
-                m_reusable_chunks.insert(dram_page->second.m_address);
+                // add the old page location to reusable addresses (after the flush)
+                released_chunks.push_back(dram_page->second.m_address);
             }
             // update to most recent location (and state number)
             m_page_map[page_num] = { state_num, address };
@@ -267,6 +270,8 @@ namespace db0
 #endif
         });
         
+        m_reusable_chunks.insert(released_chunks.begin(), released_chunks.end());
+        
         // flush all DRAM data updates before changelog updates
         BlockIOStream::flush();
         // output changelog, no RLE encoding, no duplicates
-- 
2.43.0


From 727106fc881b1dfd6ce9ecd4db688f5f91eb2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/42] fix: an incomplete chunk must not overwrite the last
 change log

---
 src/dbzero/core/storage/ChangeLogIOStream.cpp | 4 ++--
 src/dbzero/core/storage/ChangeLogIOStream.hpp | 2 ++
 src/dbzero/core/storage/MetaIOStream.cpp      | 5 ++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/core/storage/ChangeLogIOStream.cpp b/src/dbzero/core/storage/ChangeLogIOStream.cpp
index b67b26d..565bc1b 100644
--- a/src/dbzero/core/storage/ChangeLogIOStream.cpp
+++ b/src/dbzero/core/storage/ChangeLogIOStream.cpp
@@ -54,12 +54,12 @@ namespace db0
     
     template <typename o_change_log_t>
     std::size_t ChangeLogIOStream<o_change_log_t>::readChunk() {
-        return this->readChunk(m_buffer);
+        return this->readChunk(m_read_buffer);
     }
 
     template <typename o_change_log_t>
     const o_change_log_t *ChangeLogIOStream<o_change_log_t>::readChangeLogChunk() {
-        return readChangeLogChunk(m_buffer);
+        return readChangeLogChunk(m_read_buffer);
     }
 
     template <typename o_change_log_t>
diff --git a/src/dbzero/core/storage/ChangeLogIOStream.hpp b/src/dbzero/core/storage/ChangeLogIOStream.hpp
index 8d0652f..560e7ca 100644
--- a/src/dbzero/core/storage/ChangeLogIOStream.hpp
+++ b/src/dbzero/core/storage/ChangeLogIOStream.hpp
@@ -114,6 +114,8 @@ namespace db0
     private:
         const o_change_log_t *m_last_change_log_ptr = nullptr;
         std::vector<char> m_buffer;
+        // NOTE: must be separate from m_buffer because the last change log must not be affected by an incomplete chunk
+        std::vector<char> m_read_buffer;
     };
     
     template <typename o_change_log_t>
diff --git a/src/dbzero/core/storage/MetaIOStream.cpp b/src/dbzero/core/storage/MetaIOStream.cpp
index 0ccbcae..e8bb8e3 100644
--- a/src/dbzero/core/storage/MetaIOStream.cpp
+++ b/src/dbzero/core/storage/MetaIOStream.cpp
@@ -83,7 +83,10 @@ namespace db0
     
     const o_meta_log *MetaIOStream::readMetaLog()
     {
-        if (BlockIOStream::readChunk(m_buffer)) {
+        // NOTE: the last meta-log must not be affected by an incomplete chunk
+        std::vector<char> buffer;
+        if (BlockIOStream::readChunk(buffer)) {
+            m_buffer = std::move(buffer);
             m_last_meta_log = &o_meta_log::__const_ref(m_buffer.data());
             return m_last_meta_log;
         } else {
-- 
2.43.0


From ed48deef41c93bb5a611e3dc0600a41f27a68f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/42] fix: roll back an incomplete chunk at the end of a
 block stream

---
 src/dbzero/core/storage/BlockIOStream.cpp | 34 +++++++++++++++++++++--
 src/dbzero/core/storage/BlockIOStream.hpp |  4 +++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 37a2624..6864ccf 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -224,10 +224,14 @@ namespace db0
             // end-of-stream reached, need to call refresh to be able data appended in meantime
             return 0;
         }
+        // begin of the chunk, to roll back in case it turns out incomplete
+        auto chunk_address = m_address;
+        auto chunk_block_num = m_block_num;
+        auto chunk_pos = m_block_pos;
         o_block_io_chunk_header chunk_header;
         if (!peek(&chunk_header, o_block_io_chunk_header::sizeOf(), address)) {
             // end of stream (maybe process crashed when flushing?)
-            m_eos = true;
+            endAtChunk(chunk_address, chunk_block_num, chunk_pos);
             return 0;
         }
         if (!chunk_header.isValid()) {
@@ -244,12 +248,38 @@ namespace db0
             buffer.resize(chunk_header.m_chunk_size);
         }
         if (!read(buffer.data(), chunk_header.m_chunk_size)) {
-            m_eos = true;
+            // incomplete chunk (either process crashed when flushing or is still being written)
+            endAtChunk(chunk_address, chunk_block_num, chunk_pos);
             return 0;
         }
+        if (m_eos) {
+            // all blocks read
+            endAtChunk(m_address, m_block_num, m_block_pos);
+        }
         return chunk_header.m_chunk_size;
     }
     
+    void BlockIOStream::endAtChunk(std::uint64_t address, std::size_t block_num, char *block_pos)
+    {
+        if (m_address != address) {
+            if (!readBlock(address, m_block_begin)) {
+                THROWF(db0::InternalException) << "BlockIOStream unable to restore position in stream";
+            }
+            m_address = address;
+            m_block_num = block_num;
+        }
+        m_block_pos = block_pos;
+        m_eos = true;
+        // Remove the incomplete chunk and the link to the block which has never been (completely) written,
+        // this is because the block's address might be taken by other streams
+        if (m_access_type == AccessType::READ_WRITE && m_block_header.hasNext()) {
+            memset(m_block_pos, 0, m_block_end - m_block_pos);
+            m_block_header.m_next_block_address = 0;
+            m_modified = true;
+            flush();
+        }
+    }
+    
     bool BlockIOStream::peek(void *buffer, std::size_t size, std::uint64_t *address)
     {
         // switch to next block if at end of the current one
diff --git a/src/dbzero/core/storage/BlockIOStream.hpp b/src/dbzero/core/storage/BlockIOStream.hpp
index ce2a275..72e9780 100644
--- a/src/dbzero/core/storage/BlockIOStream.hpp
+++ b/src/dbzero/core/storage/BlockIOStream.hpp
@@ -275,6 +275,10 @@ DB0_PACKED_END
 
         bool read(void *buffer, std::size_t size);
         
+        // Mark end of the stream at a specific chunk's begin (not followed by any complete chunks)
+        // NOTE: in read/write mode the remnants of an incomplete chunk get removed
+        void endAtChunk(std::uint64_t address, std::size_t block_num, char *block_pos);
+
         /**
          * Skip specific number of bytes in the stream
         */
-- 
2.43.0


From 4fc0105860216e32cb2215786cdd4467a4538e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 08/42] fix: a reader must notice a new block added after the
 last one read

---
 src/dbzero/core/storage/BDevStorage.cpp   | 3 ++-
 src/dbzero/core/storage/BlockIOStream.cpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 6fc8835..a05d680 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -697,7 +697,8 @@ namespace db0
             try {
                 auto dram_state_num = m_dram_io.beginApplyChanges(m_dram_changelog_io);
                 if (!dram_state_num) {
-                    // no updates to process
+                    // no updates to process (must be allowed to refresh the stream again)
+                    m_refresh_pending = false;
                     break;
                 }
                 dram_changelog_io_pos = m_dram_changelog_io.getStreamPos();
diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 6864ccf..2ddeb3c 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -400,6 +400,11 @@ namespace db0
                     }
                 }            
             }
+            // the next block might've been added in meantime
+            if (m_block_header.hasNext() && m_file.size() >= m_block_header.m_next_block_address + m_block_size) {
+                m_eos = false;
+                return true;
+            }
         }
 
         // no change, no new contents to read
-- 
2.43.0


From cebf0f79b95b643c82c1e40a68192bd15e0b14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 09/42] fix: release memory held by pending tags before an
 atomic operation is cancelled

Pending updates of the tag index were rolled back after the allocator had
already left the atomic mode: addresses allocated inside the cancelled
operation were queued for a deferred free and the next commit failed with
BadAddressException.
---
 src/dbzero/object_model/tags/TagIndex.cpp | 1 +
 src/dbzero/workspace/Fixture.cpp          | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 8aa67cf..725b3c1 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -318,6 +318,7 @@ namespace db0::object_model
         for (auto tag_addr: m_inc_refed_tags) {
             m_string_pool.unRefByAddr(tag_addr);
         }
+        m_inc_refed_tags.clear();
         // NOTE: also need to clear buffers which may contain incomplete objects
         m_object_cache.clear();
         m_active_cache.clear();
diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 0f41ff3..1f3250e 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -505,10 +505,11 @@ namespace db0
     {
         assert(m_atomic_context_ptr);
         m_atomic_context_ptr = nullptr;
-        m_meta_allocator.cancelAtomic();
-        getGC0().cancelAtomic();
         // rollback any uncommited changes
+        // NOTE: must precede cancel, since memory released on rollback may have been allocated inside the atomic operation
         rollback();
+        m_meta_allocator.cancelAtomic();
+        getGC0().cancelAtomic();
         // detach owned resources
         for (auto &detach: m_detach_handlers) {
             detach();
-- 
2.43.0


From b588b42cc3c663b64550e68606efdcf2b81309b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 10/42] fix: write a reverted page which was already flushed in
 the current transaction

A page flushed to release memory and then restored to its original content
has no differences against the previous state, so that the commit skipped it
and the intermediate content got published.
---
 src/dbzero/core/memory/DP_Lock.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/DP_Lock.cpp b/src/dbzero/core/memory/DP_Lock.cpp
index 8443861..bbb5d50 100644
--- a/src/dbzero/core/memory/DP_Lock.cpp
+++ b/src/dbzero/core/memory/DP_Lock.cpp
@@ -81,12 +81,20 @@ namespace db0
                         return false;
                     }
                     
-                    // NOTE: DP needs not to be flushed if there are no diffs
                     if (!diffs.empty()) {
                         if (!storage.tryWriteDiffs(m_address, m_state_num, this->size(), m_data.data(), diffs)) {
                             // unable to diff-flush
                             return false;
                         }
+                    } else {
+                        // NOTE: DP needs not to be flushed if there are no diffs, unless its other version has already
+                        // been written in the current transaction (i.e. flushed to release memory, then reverted)
+                        StateNumType mutation_id = 0;
+                        if (storage.tryFindMutation(m_address / storage.getPageSize(), m_state_num, mutation_id)
+                            && mutation_id == m_state_num)
+                        {
+                            return false;
+                        }
                     }
                     
 #ifndef NDEBUG                    
-- 
2.43.0


From 96614a24e0c14a192194d488388dac0bb93e794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 11/42] fix: report a data file which cannot be created or
 completely written

---
 src/dbzero/core/storage/CFile.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/core/storage/CFile.cpp b/src/dbzero/core/storage/CFile.cpp
index 0914191..4b25df6 100644
--- a/src/dbzero/core/storage/CFile.cpp
+++ b/src/dbzero/core/storage/CFile.cpp
@@ -168,10 +168,12 @@ namespace db0
         
         // create a new empty file
         FILE *file = fopen(file_name.c_str(), "ab+");
+        if (!file) {
+            THROWF(db0::IOException) << "Unable to create file: " << file_name;
+        }
         try {
             // check file size
-            FSEEK(file, 0, SEEK_END);
-            auto file_size = ftell(file);
+            auto file_size = getFileSize(file, 0);
             if (file_size != 0) {
                 THROWF(db0::IOException) << "File already exists: " << file_name;
             }
@@ -180,11 +182,14 @@ namespace db0
                     THROWF(db0::IOException) << "File write failed: " << file_name;
                 }
             }
-            fclose(file);
         } catch (...) {
             fclose(file);
             throw;
         }
+        // NOTE: buffered data is only written here
+        if (fclose(file)) {
+            THROWF(db0::IOException) << "File write failed: " << file_name;
+        }
     }
     
     void CFile::setFilePos(std::uint64_t address, std::unique_lock<std::mutex> &lock) const
-- 
2.43.0


From af1f615abcdd4ed65cbf0d03630704de9dab306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 12/42] fix: keep the file position right after a failed read
 or write

---
 src/dbzero/core/storage/CFile.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/CFile.cpp b/src/dbzero/core/storage/CFile.cpp
index 4b25df6..4781de9 100644
--- a/src/dbzero/core/storage/CFile.cpp
+++ b/src/dbzero/core/storage/CFile.cpp
@@ -135,10 +135,12 @@ namespace db0
     void CFile::close()
     {
         if (m_file) {
-            if (fclose(m_file)) {
+            // NOTE: file is no longer available even if closing it failed
+            auto result = fclose(m_file);
+            m_file = nullptr;
+            if (result) {
                 THROWF(db0::IOException) << "CFile::close: failed to close file " << m_path;
             }
-            m_file = nullptr;
         }
         //release the lock
         m_lock.reset();
@@ -218,6 +220,9 @@ namespace db0
         assert(m_file_pos == (std::uint64_t)ftell(m_file));
         assert(!overlap(m_protected, { address, size }));
         if (fwrite(buffer, size, 1, m_file) != 1) {
+            // the position is not at "address" any more
+            clearerr(m_file);
+            m_file_pos = ftell(m_file);
             THROWF(db0::IOException) << "CFile::write: fwrite failed";
         }
         m_file_pos += size;
@@ -241,6 +246,9 @@ namespace db0
         }
         assert(m_file_pos == (std::uint64_t)ftell(m_file));
         if (fread(buffer, size, 1, m_file) != 1) {
+            // the position is not at "address" any more
+            clearerr(m_file);
+            m_file_pos = ftell(m_file);
             THROWF(db0::IOException) << "CFile::read: fread failed";
         }
         m_file_pos += size;
-- 
2.43.0


From de8a2794024fa4ebd43c840fe95ffcb44f075c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 13/42] fix: allow cache cleanups again after one was refused

---
 src/dbzero/workspace/Workspace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index ccf7c98..a6f07ba 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -736,11 +736,13 @@ namespace db0
         m_cleanup_pending = true;
         try {
             if (!BaseWorkspace::onCacheFlushed(threshold_reached)) {
+                m_cleanup_pending = false;
                 return false;
             }
             for (auto &[uuid, fixture] : m_fixtures) {
                 if (!fixture->onCacheFlushed(threshold_reached)) {
                     // unable to handle this event - e.g. due to pending commit
+                    m_cleanup_pending = false;
                     return false;
                 }
             }
-- 
2.43.0


From 365ac3a8f5a324c83ca592a10c010200f754dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 14/42] fix: take the fixture lock when clearing / popping a
 dict and when updating an index

dict.clear / dict.pop on a read-only prefix or snapshot terminated the process, index.add / index.remove
were silently accepted (and lost); all of them could also race with the auto-commit thread.
---
 src/dbzero/bindings/python/collections/PyDict.cpp  | 2 ++
 src/dbzero/bindings/python/collections/PyIndex.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index b838624..adda2fa 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -391,6 +391,7 @@ namespace db0::python
     
     PyObject *tryDictObject_clear(DictObject *dict_obj)
     {
+        db0::FixtureLock lock(dict_obj->ext().getFixture());
         dict_obj->modifyExt().clear();
         Py_RETURN_NONE;
     }
@@ -504,6 +505,7 @@ namespace db0::python
         auto maybe_hash = getPyHashIfExists(fixture, *elem);
         if (maybe_hash) {
             if (dict_object->ext().hasItem(maybe_hash->first, *elem)) {
+                db0::FixtureLock lock(fixture);
                 return dict_object->modifyExt().pop(maybe_hash->first, *elem).steal();
             }
         }
diff --git a/src/dbzero/bindings/python/collections/PyIndex.cpp b/src/dbzero/bindings/python/collections/PyIndex.cpp
index 47679d3..b21a7f7 100644
--- a/src/dbzero/bindings/python/collections/PyIndex.cpp
+++ b/src/dbzero/bindings/python/collections/PyIndex.cpp
@@ -103,9 +103,9 @@ namespace db0::python
     
     PyObject *tryIndexObject_add(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        // NOTE: add() is a buffered operation, but the buffer may be flushed by a concurrent commit
+        db0::FixtureLock lock(index_obj->ext().getFixture());
         index_obj->modifyExt().add(args[0], args[1]);
-        // NOTE: we don't need to lock the fixture here, because add() is a buffered operation
-        index_obj->ext().getFixture()->onUpdated();
         Py_RETURN_NONE;
     }
     
@@ -122,9 +122,9 @@ namespace db0::python
 
     PyObject *tryIndexObject_remove(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        // NOTE: remove() is a buffered operation, but the buffer may be flushed by a concurrent commit
+        db0::FixtureLock lock(index_obj->ext().getFixture());
         index_obj->modifyExt().remove(args[0], args[1]);
-        // NOTE: we don't need to lock the fixture here, because remove() is a buffered operation
-        index_obj->ext().getFixture()->onUpdated();
         Py_RETURN_NONE;
     }
 
-- 
2.43.0


From 3e14250c5146c84d80f6d54f267ec2ad66df58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 15/42] fix: report errors from object creation and
 integer-returning slots as Python exceptions

An exception thrown while creating an instance (e.g. on a read-only prefix) terminated the process and
integer-returning slots reported success (0) with an exception set instead of -1 (SystemError).
---
 src/dbzero/bindings/python/Memo.cpp           | 56 ++++++++++++-------
 src/dbzero/bindings/python/PySnapshot.cpp     |  4 +-
 .../python/collections/CollectionMethods.hpp  |  4 +-
 .../bindings/python/collections/PyDict.cpp    |  6 +-
 .../python/collections/PyDictView.cpp         |  2 +-
 .../bindings/python/collections/PyIndex.cpp   |  2 +-
 .../bindings/python/collections/PySet.cpp     |  4 +-
 .../bindings/python/collections/PyTuple.cpp   |  2 +-
 .../bindings/python/collections/PyWeakSet.cpp |  2 +-
 .../bindings/python/iter/PyJoinIterable.cpp   |  2 +-
 .../bindings/python/iter/PyObjectIterable.cpp |  2 +-
 src/dbzero/bindings/python/types/PyEnum.cpp   |  2 +-
 12 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 351c81f..2a63180 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -84,7 +84,7 @@ namespace db0::python
     {
         PY_API_FUNC
         auto fixture = self->ext().getFixture();
-        return runSafe(getPyHashImpl<TypeId::MEMO_OBJECT>, fixture, self);
+        return runSafe<-1>(getPyHashImpl<TypeId::MEMO_OBJECT>, fixture, self);
     }
     
     template <typename MemoImplT>
@@ -240,10 +240,38 @@ namespace db0::python
     initproc MemoObject_getInitFunc(MemoImplT *self);
 
     template <typename MemoImplT>
-    int PyAPI_MemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
+    int tryMemoObject_postInit(MemoImplT *self)
     {
         using Class = db0::object_model::Class;
         using TagIndex = db0::object_model::TagIndex;
+
+        // invoke post-init on associated dbzero object
+        auto &object = self->modifyExt();
+        db0::FixtureLock fixture(object.getFixture());            
+        object.postInit(fixture);
+        
+        // need to call modifyExt again after postInit because the instance has just been created
+        // and potentially needs to be included in the AtomicContext
+        self->modifyExt();
+        const Class *class_ptr = &object.getType();
+        if (!class_ptr || !class_ptr->isNoCache()) {
+            fixture->getLangCache().add(object.getAddress(), self);
+        }
+        
+        // finally, unless opted-out, assign the type tag(s) of the entire type hierarchy            
+        if (class_ptr && class_ptr->assignDefaultTags()) {
+            auto &tag_index = fixture->get<TagIndex>();
+            while (class_ptr) {
+                tag_index.addTag(self, class_ptr->getAddress(), true);
+                class_ptr = class_ptr->getBaseClassPtr();
+            }
+        }
+        return 0;
+    }
+
+    template <typename MemoImplT>
+    int PyAPI_MemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
+    {
         using ExtT = typename MemoImplT::ExtT;
 
         PY_API_FUNC
@@ -278,26 +306,12 @@ namespace db0::python
                 return -1;
             }
             
-            // invoke post-init on associated dbzero object
-            auto &object = self->modifyExt();
-            db0::FixtureLock fixture(object.getFixture());            
-            object.postInit(fixture);
-            
-            // need to call modifyExt again after postInit because the instance has just been created
-            // and potentially needs to be included in the AtomicContext
-            self->modifyExt();
-            const Class *class_ptr = &object.getType();
-            if (!class_ptr || !class_ptr->isNoCache()) {
-                fixture->getLangCache().add(object.getAddress(), self);
-            }
-            
-            // finally, unless opted-out, assign the type tag(s) of the entire type hierarchy            
-            if (class_ptr && class_ptr->assignDefaultTags()) {
-                auto &tag_index = fixture->get<TagIndex>();
-                while (class_ptr) {
-                    tag_index.addTag(self, class_ptr->getAddress(), true);
-                    class_ptr = class_ptr->getBaseClassPtr();
+            if (runSafe<-1>(tryMemoObject_postInit<MemoImplT>, self) < 0) {
+                if (!self->ext().hasInstance()) {
+                    // mark object as defunct since it could not be created (e.g. a read-only prefix)
+                    self->ext().setDefunct();
                 }
+                return -1;
             }
         }
         
diff --git a/src/dbzero/bindings/python/PySnapshot.cpp b/src/dbzero/bindings/python/PySnapshot.cpp
index 2770ae4..99b8c34 100644
--- a/src/dbzero/bindings/python/PySnapshot.cpp
+++ b/src/dbzero/bindings/python/PySnapshot.cpp
@@ -364,7 +364,7 @@ namespace db0::python
             return -1;
         }
         PY_API_FUNC
-        return runSafe(tryPySnapshot_len, py_snapshot);
+        return runSafe<-1>(tryPySnapshot_len, py_snapshot);
     }
     
     int tryPySnapshot_HasItem(PySnapshotObject *py_snapshot, const char *prefix_name) {
@@ -384,7 +384,7 @@ namespace db0::python
         const char *prefix_name = PyUnicode_AsUTF8(prefix);
 
         PY_API_FUNC
-        return runSafe(tryPySnapshot_HasItem, py_snapshot, prefix_name);
+        return runSafe<-1>(tryPySnapshot_HasItem, py_snapshot, prefix_name);
     }
 
 }
diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 37ece7f..8d72bc3 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -75,7 +75,7 @@ namespace db0::python
     int PyAPI_ObjectT_SetItem(ObjectT *py_obj, Py_ssize_t i, PyObject *value)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
+        return runSafe<-1>(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
     }
 
     template <typename ObjectT>
@@ -126,7 +126,7 @@ namespace db0::python
     Py_ssize_t PyAPI_ObjectT_len(ObjectT *py_obj)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_len<ObjectT>, py_obj);
+        return runSafe<-1>(tryObjectT_len<ObjectT>, py_obj);
     }
 
     template<typename ObjectT>
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index adda2fa..e8dc1cb 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -102,7 +102,7 @@ namespace db0::python
     Py_ssize_t PyAPI_DictObject_len(DictObject *dict_obj)
     {
         PY_API_FUNC
-        return runSafe(tryDictObject_len, dict_obj);
+        return runSafe<-1>(tryDictObject_len, dict_obj);
     }
     
     int tryDictObject_HasItem(DictObject *py_dict, PyObject *py_key)
@@ -543,7 +543,9 @@ namespace db0::python
         auto fixture = dict_object->ext().getFixture();
         auto hash = getPyHash(fixture, *elem);
         if (!dict_object->ext().hasItem(hash, *elem)) {
-            tryDictObject_SetItem(dict_object, *elem, *value);
+            if (tryDictObject_SetItem(dict_object, *elem, *value) < 0) {
+                return nullptr;
+            }
         }
         return tryDictObject_GetItem(dict_object, *elem);
     }
diff --git a/src/dbzero/bindings/python/collections/PyDictView.cpp b/src/dbzero/bindings/python/collections/PyDictView.cpp
index 349c9c7..73b38f8 100644
--- a/src/dbzero/bindings/python/collections/PyDictView.cpp
+++ b/src/dbzero/bindings/python/collections/PyDictView.cpp
@@ -35,7 +35,7 @@ namespace db0::python
     Py_ssize_t PyAPI_DictViewObject_len(DictViewObject *dict_obj)
     {
         PY_API_FUNC        
-        return runSafe(tryDictViewObject_len, dict_obj);
+        return runSafe<-1>(tryDictViewObject_len, dict_obj);
     }
 
     static PyMappingMethods DictViewObject_mp = {
diff --git a/src/dbzero/bindings/python/collections/PyIndex.cpp b/src/dbzero/bindings/python/collections/PyIndex.cpp
index b21a7f7..2f4628d 100644
--- a/src/dbzero/bindings/python/collections/PyIndex.cpp
+++ b/src/dbzero/bindings/python/collections/PyIndex.cpp
@@ -65,7 +65,7 @@ namespace db0::python
     Py_ssize_t PyAPI_IndexObject_len(IndexObject *index_obj)
     {
         PY_API_FUNC
-        return runSafe(tryIndexObject_len, index_obj);
+        return runSafe<-1>(tryIndexObject_len, index_obj);
     }
     
     IndexObject *tryMakeIndex(PyObject *self, PyObject *const *args, Py_ssize_t nargs)
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index dcb09ad..6d0d893 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -98,13 +98,13 @@ namespace db0::python
     Py_ssize_t PyAPI_SetObject_len(SetObject *set_obj)
     {
         PY_API_FUNC
-        return runSafe(trySetObject_len, set_obj);
+        return runSafe<-1>(trySetObject_len, set_obj);
     }
 
     Py_ssize_t getLenPyObjectOrSet(PyObject *obj)
     {
         if (SetObject_Check(obj)) {
-            return runSafe(trySetObject_len, (SetObject*)obj);
+            return runSafe<-1>(trySetObject_len, (SetObject*)obj);
         }
         return PyObject_Length(obj);
     }
diff --git a/src/dbzero/bindings/python/collections/PyTuple.cpp b/src/dbzero/bindings/python/collections/PyTuple.cpp
index c0c6f9b..dfccce5 100644
--- a/src/dbzero/bindings/python/collections/PyTuple.cpp
+++ b/src/dbzero/bindings/python/collections/PyTuple.cpp
@@ -224,7 +224,7 @@ namespace db0::python
     Py_ssize_t PyAPI_TupleObject_len(TupleObject *tuple_obj)
     {
         PY_API_FUNC
-        return runSafe(tryTupleObject_len, tuple_obj);
+        return runSafe<-1>(tryTupleObject_len, tuple_obj);
     }
     
     shared_py_object<TupleObject*> tryMake_DB0Tuple(db0::swine_ptr<Fixture> &fixture, PyObject *const *args,
diff --git a/src/dbzero/bindings/python/collections/PyWeakSet.cpp b/src/dbzero/bindings/python/collections/PyWeakSet.cpp
index bb495b0..721ac0e 100644
--- a/src/dbzero/bindings/python/collections/PyWeakSet.cpp
+++ b/src/dbzero/bindings/python/collections/PyWeakSet.cpp
@@ -61,7 +61,7 @@ namespace db0::python
     Py_ssize_t PyAPI_WeakSetObject_len(WeakSetObject *self)
     {
         PY_API_FUNC
-        return runSafe(tryWeakSetObject_len, self);
+        return runSafe<-1>(tryWeakSetObject_len, self);
     }
 
     PyObject *tryWeakSetObject_add(WeakSetObject *self, PyObject *const *args, Py_ssize_t)
diff --git a/src/dbzero/bindings/python/iter/PyJoinIterable.cpp b/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
index d931922..8e8c658 100644
--- a/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
@@ -52,7 +52,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyJoinIterable_len(PyJoinIterable *py_join)
     {
         PY_API_FUNC
-        return runSafe(tryPyJoinIterable_len, py_join);
+        return runSafe<-1>(tryPyJoinIterable_len, py_join);
     }
     
     int PyAPI_PyJoinIterable_bool(PyJoinIterable *py_join)
diff --git a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
index cb8a73f..7ef3c05 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
@@ -94,7 +94,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyObjectIterable_len(PyObjectIterable *py_iterable)
     {
         PY_API_FUNC
-        return runSafe(tryPyObjectIterable_len, py_iterable);
+        return runSafe<-1>(tryPyObjectIterable_len, py_iterable);
     }
 
     void PySlice_GetUnboundIndices(PyObject *py_slice, std::function<std::size_t(std::optional<std::size_t> &)> size_func, 
diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index 2d0275a..b42e9d9 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -175,7 +175,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyEnum_len(PyEnum *py_enum)
     {
         PY_API_FUNC
-        return runSafe(tryPyEnum_len, py_enum);
+        return runSafe<-1>(tryPyEnum_len, py_enum);
     }
 
     PyObject *tryPyEnum_GetItem(PyEnum *self, PyObject *py_key)
-- 
2.43.0


From 705f12f479cebb6643f46122e5ce910a078a71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 16/42] fix: balance Python reference counts in set
 intersection, dict.pop / update and PySafe wrappers

set.intersection released elements it did not own (and merged unordered iterators, losing elements),
dict.pop returned the default without a new reference, dict.update and the PySafe wrappers of functions
which do not steal references leaked them.
---
 src/dbzero/bindings/python/PySafeAPI.hpp      | 14 +++--
 .../bindings/python/collections/PyDict.cpp    |  8 ++-
 .../bindings/python/collections/PySet.cpp     | 56 ++++++-------------
 3 files changed, 32 insertions(+), 46 deletions(-)

diff --git a/src/dbzero/bindings/python/PySafeAPI.hpp b/src/dbzero/bindings/python/PySafeAPI.hpp
index b83259f..0c8e543 100644
--- a/src/dbzero/bindings/python/PySafeAPI.hpp
+++ b/src/dbzero/bindings/python/PySafeAPI.hpp
@@ -65,7 +65,8 @@ namespace db0::python
     int PySafeList_Append(PyObject *self, shared_py_object<T> item)
     {
         assert(item.get() != nullptr);
-        return PyList_Append(self, item.steal());
+        // NOTE: Python API does NOT steal the item reference
+        return PyList_Append(self, *item);
     }
     
     template <typename T> 
@@ -79,16 +80,16 @@ namespace db0::python
     int PySafeDict_SetItem(PyObject *self, shared_py_object<K> key, shared_py_object<V> val)
     {
         assert(key.get() != nullptr);        
-        // NOTE: Python API does NOT steal the value reference
-        return PyDict_SetItem(self, key.steal(), *val);
+        // NOTE: Python API does NOT steal the key / value references
+        return PyDict_SetItem(self, *key, *val);
     }
     
     template <typename K, typename V>
     PyObject *PySafeDict_SetDefault(PyObject *self, shared_py_object<K> key, shared_py_object<V> val)
     {
         assert(key.get() != nullptr);
-        // NOTE: Python API does NOT steal the value reference
-        return PyDict_SetDefault(self, key.steal(), *val);
+        // NOTE: Python API does NOT steal the key / value references
+        return PyDict_SetDefault(self, *key, *val);
     }
 
     template <typename T>
@@ -103,7 +104,8 @@ namespace db0::python
     int PySafeSet_Add(PyObject *self, shared_py_object<T> key)
     {
         assert(key.get() != nullptr);
-        return PySet_Add(self, key.steal());
+        // NOTE: Python API does NOT steal the key reference
+        return PySet_Add(self, *key);
     }
     
     template <typename T>
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index e8dc1cb..75522eb 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -330,7 +330,11 @@ namespace db0::python
                 if (PyDict_Check(arg1)) {
                     tryDictObject_SetItem(dict_object, elem.get(), PyDict_GetItem(arg1, *elem));
                 } else if (DictObject_Check(arg1)) {
-                    tryDictObject_SetItem(dict_object, elem.get(), tryDictObject_GetItem((DictObject*)arg1, *elem));
+                    auto value = Py_OWN(tryDictObject_GetItem((DictObject*)arg1, *elem));
+                    if (!value) {
+                        return NULL;
+                    }
+                    tryDictObject_SetItem(dict_object, elem.get(), *value);
                 } else {
                     if (PyObject_Length(*elem) != 2) {
                         PyErr_SetString(PyExc_ValueError, "dictionary update sequence element #0 has length 1; 2 is required");
@@ -515,7 +519,7 @@ namespace db0::python
             return NULL;
         }
         
-        return value;        
+        return Py_BORROW(value).steal();
     }
     
     PyObject *PyAPI_DictObject_pop(DictObject *dict_object, PyObject *const *args, Py_ssize_t nargs) 
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 6d0d893..d47f46e 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -500,28 +500,18 @@ namespace db0::python
         return runSafe(trySetObject_union, self, args, nargs);
     }
     
-    void trySetObject_intersectionInternal(FixtureLock &fixture, SetObject * set_obj, PyObject *it1, PyObject *elem1,
-        PyObject *it2, PyObject *elem2)
-    {
-        // FIXME: reimplement avoiding recursion
-        if (elem1 == nullptr || elem2 == nullptr) {
-            return;
-        }
-        if (elem1 < elem2) {
-            Py_DECREF(elem1);
-            elem1 = PyIter_Next(it1);
-        } else if (elem1 > elem2) {            
-            Py_DECREF(elem2);
-            elem2 = PyIter_Next(it2);
-        } else if (elem1 == elem2) {
-            auto hash = getPyHash(*fixture, elem1);
-            set_obj->modifyExt().append(fixture, hash, elem1);            
-            Py_DECREF(elem1);
-            Py_DECREF(elem2);
-            elem1 = PyIter_Next(it1);
-            elem2 = PyIter_Next(it2);
-        }
-        return trySetObject_intersectionInternal(fixture, set_obj, it1 ,elem1, it2, elem2);
+    // append all elements of the iterator which exist in the set_input
+    void trySetObject_intersectionInternal(FixtureLock &lock, SetObject *set_result, SetObject *set_input,
+        ObjectSharedPtr &it)
+    {
+        auto &set_impl = set_result->modifyExt();
+        auto fixture = set_input->ext().getFixture();
+        Py_FOR(elem, it) {
+            auto maybe_hash = getPyHashIfExists(fixture, *elem);
+            if (maybe_hash && set_input->ext().hasItem(maybe_hash->first, *elem)) {
+                set_impl.append(lock, maybe_hash->first, elem);
+            }
+        }
     }
     
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
@@ -530,32 +520,22 @@ namespace db0::python
 
     PyObject *trySetObject_intersection_func(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     { 
+        auto last_set = Py_BORROW(self);
         auto set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-        ObjectSharedPtr elem1, elem2;
-        auto it1 = Py_OWN(PyObject_GetIter((PyObject*)self));
-        if (!it1) {
-            PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-            return nullptr;
-        }
-
         db0::FixtureLock lock(self->ext().getFixture());
-        ObjectSharedPtr it2;
         for (Py_ssize_t i = 0; i < nargs; ++i) {
-            it2 = Py_OWN(PyObject_GetIter(args[i]));
-            if (!it2) {
+            ObjectSharedPtr it = Py_OWN(PyObject_GetIter(args[i]));
+            if (!it) {
                 PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
                 return nullptr;
             }
 
-            elem1 = Py_OWN(PyIter_Next(*it1));
-            elem2 = Py_OWN(PyIter_Next(*it2));
             set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-            trySetObject_intersectionInternal(lock, *set_obj, *it1, *elem1, *it2, *elem2);
-            it1 = Py_OWN(PyObject_GetIter(*set_obj));
-            if (!it1) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+            if (!set_obj) {
                 return nullptr;
             }
+            trySetObject_intersectionInternal(lock, *set_obj, *last_set, it);
+            last_set = set_obj;
         }
         return set_obj.steal();
     }
-- 
2.43.0


From c237c21eb330a6a91059ea276f5cef56a14e1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 17/42] fix: refuse to create an object on a read-only prefix
 before its members are created

Referencing an existing object, extending the type with a new field or using a new type from the
initializer of an object which belongs to a read-only prefix (or referencing an object of a read-only
snapshot) terminated the process.
---
 src/dbzero/object_model/object/ObjectImplBase.cpp    | 2 ++
 src/dbzero/object_model/object/ObjectInitializer.cpp | 4 +---
 src/dbzero/object_model/object/ObjectInitializer.hpp | 5 ++++-
 src/dbzero/object_model/value/Member.cpp             | 4 ++++
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/object/ObjectImplBase.cpp b/src/dbzero/object_model/object/ObjectImplBase.cpp
index 8563e00..fd5f99d 100644
--- a/src/dbzero/object_model/object/ObjectImplBase.cpp
+++ b/src/dbzero/object_model/object/ObjectImplBase.cpp
@@ -227,6 +227,8 @@ namespace db0::object_model
 
         auto &initializer = InitManager::instance.getInitializer(*this);
         auto fixture = initializer.getFixture();
+        // NOTE: the type may get extended with a new field and the member's value is created / referenced
+        FixtureLock lock(fixture);
         auto &type = initializer.getClass();
         auto storage_class = recognizeType(*fixture, type_id, obj_ptr);
         auto storage_fidelity = getStorageFidelity(storage_class);
diff --git a/src/dbzero/object_model/object/ObjectInitializer.cpp b/src/dbzero/object_model/object/ObjectInitializer.cpp
index 780c7da..b109477 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.cpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.cpp
@@ -33,8 +33,7 @@ namespace db0::object_model
     {
         if (!m_class) {
             assert(m_type_initializer);
-            assert(m_fixture);
-
+            // NOTE: fixture is not set if the type could not be created (e.g. read-only prefix)
             if (!m_fixture) {
                 THROWF(db0::InternalException)
                     << "ObjectInitializer: Unable to initialize type because Fixture not set" << THROWF_END;
@@ -187,7 +186,6 @@ namespace db0::object_model
     
     void ObjectInitializerManager::closeAt(std::uint32_t loc)
     {
-        auto result = m_initializers[loc]->getClassPtr();
         m_initializers[loc]->reset();
         // move to inactive slot
         std::swap(m_initializers[loc], m_initializers[m_active_count - 1]);
diff --git a/src/dbzero/object_model/object/ObjectInitializer.hpp b/src/dbzero/object_model/object/ObjectInitializer.hpp
index 8384037..1417ef6 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.hpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.hpp
@@ -172,6 +172,8 @@ namespace db0::object_model
         Class &getClass() const;
         
         std::shared_ptr<Class> getClassPtr() const;
+        // @return nullptr if the type has not been initialized yet
+        std::shared_ptr<Class> tryGetClassPtr() const { return m_class; }
 
         inline std::pair<std::uint32_t, std::uint32_t> getRefCounts() const {
             return m_ref_counts;
@@ -235,7 +237,8 @@ namespace db0::object_model
     {        
         for (auto i = 0u; i < m_active_count; ++i) {
             if (m_initializers[i]->operator==(object)) {
-                auto result = m_initializers[i]->getClassPtr();
+                // NOTE: must not initialize the type here (no-throw, called on destruction)
+                auto result = m_initializers[i]->tryGetClassPtr();
                 closeAt(i);
                 return result;
             }
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 397bdbb..af1c56c 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -48,6 +48,8 @@ namespace db0::object_model
         if (*fixture != *object.getFixture()) {
             if (!object.hasRefs() && auto_harden) {
                 // auto-harden instead of taking a weak reference
+                // NOTE: the object must be removable from its current prefix
+                FixtureLock lock(object.getFixture());
                 object.moveTo(fixture);
                 object.incRef(false);
                 return object.getAddress();
@@ -57,6 +59,8 @@ namespace db0::object_model
             return createMember<TypeId::DB0_WEAK_PROXY, PyToolkit>(
                 fixture, wrapped.get(), storage_class, access_flags);
         }
+        // NOTE: the object may belong to a read-only view (snapshot) of the same prefix
+        FixtureLock lock(object.getFixture());
         object.incRef(false);
         return object.getAddress();
     }
-- 
2.43.0


From f4f2c26f8bd2560d50c3943287e91ed5921d0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 18/42] fix: count the reference to a byte array member once

The byte array was referenced twice when assigned and released once, so its storage was never reclaimed.
---
 src/dbzero/object_model/value/Member.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index af1c56c..41c226c 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -308,7 +308,6 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass storage_class, AccessFlags access_flags)
     {
         auto &byte_array = PyToolkit::getTypeManager().extractMutableByteArray(obj_ptr);
-        byte_array.modify().incRef(false);
         return resolveForFixture(fixture, byte_array, obj_ptr, storage_class, access_flags);
     }
     
-- 
2.43.0


From 0c5e17da6f57395213545d6522acc930df4ce183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 19/42] fix: binary operators of sets, lists and tags check
 their left operand (reflected calls crashed)

---
 src/dbzero/bindings/python/PyObjectTagManager.cpp | 10 ++++++++++
 src/dbzero/bindings/python/PyObjectTagManager.hpp |  1 +
 src/dbzero/bindings/python/collections/PyList.cpp |  7 +++++++
 src/dbzero/bindings/python/collections/PySet.cpp  | 13 +++++++++++++
 4 files changed, 31 insertions(+)

diff --git a/src/dbzero/bindings/python/PyObjectTagManager.cpp b/src/dbzero/bindings/python/PyObjectTagManager.cpp
index c39ecc8..cb24fa3 100644
--- a/src/dbzero/bindings/python/PyObjectTagManager.cpp
+++ b/src/dbzero/bindings/python/PyObjectTagManager.cpp
@@ -34,6 +34,10 @@ namespace db0::python
         Py_TYPE(tags_obj)->tp_free((PyObject*)tags_obj);
     }
     
+    bool PyObjectTagManager_Check(PyObject *object) {
+        return Py_TYPE(object) == &PyObjectTagManagerType;
+    }
+
     PyObject *tryPyObjectTagManager_add_binary(PyObjectTagManager *tag_manager, PyObject *object)
     {    
         tag_manager->modifyExt().add(&object, 1);
@@ -43,6 +47,9 @@ namespace db0::python
 
     PyObject *PyAPI_PyObjectTagManager_add_binary(PyObjectTagManager *tag_manager, PyObject *object) 
     {
+        if (!PyObjectTagManager_Check((PyObject*)tag_manager)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(tryPyObjectTagManager_add_binary, tag_manager, object);
     }
@@ -68,6 +75,9 @@ namespace db0::python
 
     PyObject *PyAPI_PyObjectTagManager_remove_binary(PyObjectTagManager *tag_manager, PyObject *object) 
     {
+        if (!PyObjectTagManager_Check((PyObject*)tag_manager)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(tryPyObjectTagManager_remove_binary, tag_manager, object);
     }
diff --git a/src/dbzero/bindings/python/PyObjectTagManager.hpp b/src/dbzero/bindings/python/PyObjectTagManager.hpp
index 1e73d53..b703553 100644
--- a/src/dbzero/bindings/python/PyObjectTagManager.hpp
+++ b/src/dbzero/bindings/python/PyObjectTagManager.hpp
@@ -22,6 +22,7 @@ namespace db0::python
     PyObject *PyAPI_PyObjectTagManager_remove_binary(PyObjectTagManager *, PyObject *obj);
     
     extern PyTypeObject PyObjectTagManagerType;
+    bool PyObjectTagManager_Check(PyObject *);
     
     PyObjectTagManager *makeObjectTagManager(PyObject *, PyObject *const *args, Py_ssize_t nargs);
     
diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index 49e4d3a..540756c 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -66,6 +66,10 @@ namespace db0::python
     
     PyObject *PyAPI_ListObject_multiply(ListObject *list_obj, PyObject *elem)
     {
+        // NOTE: in a binary operation the list may be the right operand
+        if (!ListObject_Check((PyObject*)list_obj)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(tryListObject_multiply, list_obj, elem).steal();
     }
@@ -232,6 +236,9 @@ namespace db0::python
     
     PyObject *PyAPI_ListObject_add(ListObject *list_obj_lh, ListObject *list_obj_rh)
     {
+        if (!ListObject_Check((PyObject*)list_obj_lh)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(tryListObject_add, list_obj_lh, list_obj_rh).steal();
     }
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index d47f46e..2d6b241 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -459,6 +459,10 @@ namespace db0::python
     }
     
     PyObject *PyAPI_SetObject_union_binary(SetObject *self, PyObject * obj) {        
+        // NOTE: in a binary operation self may be the right operand
+        if (!SetObject_Check((PyObject*)self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return PyAPI_SetObject_union(self, &obj, 1);
     }
 
@@ -515,6 +519,9 @@ namespace db0::python
     }
     
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
+        if (!SetObject_Check((PyObject*)self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return PyAPI_SetObject_intersection_func(self, &obj, 1);
     }
 
@@ -630,12 +637,18 @@ namespace db0::python
     
     PyObject *PyAPI_SetObject_difference_binary(SetObject *self, PyObject * obj) 
     {
+        if (!SetObject_Check((PyObject*)self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, false);
     }
 
     PyObject *PyAPI_SetObject_symmetric_difference_binary(SetObject *self, PyObject * obj)
     { 
+        if (!SetObject_Check((PyObject*)self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, true);
     }
-- 
2.43.0


From e751ec45faf835e437245c6575969e5e5ad368ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 20/42] fix: hash, repr, bool, __dict__ and get_dram_io_map
 report errors as Python exceptions instead of aborting

---
 src/dbzero/bindings/python/Memo.cpp           | 19 +++++++++++++++----
 src/dbzero/bindings/python/PyAPI.cpp          |  9 +++++++--
 .../bindings/python/iter/PyObjectIterable.cpp |  9 +++++++--
 src/dbzero/bindings/python/types/PyEnum.cpp   |  8 +++++++-
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 2a63180..8f180fc 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -80,11 +80,16 @@ namespace db0::python
         return memo_obj;
     }
     
+    Py_hash_t tryMemoHash(MemoObject *self)
+    {
+        auto fixture = self->ext().getFixture();
+        return getPyHashImpl<TypeId::MEMO_OBJECT>(fixture, self);
+    }
+
     Py_hash_t PyAPI_MemoHash(MemoObject *self)
     {
         PY_API_FUNC
-        auto fixture = self->ext().getFixture();
-        return runSafe<-1>(getPyHashImpl<TypeId::MEMO_OBJECT>, fixture, self);
+        return runSafe<-1>(tryMemoHash, self);
     }
     
     template <typename MemoImplT>
@@ -686,9 +691,8 @@ namespace db0::python
     }
 
     template <typename MemoImplT>
-    PyObject *PyAPI_MemoObject_get_dict(MemoImplT *self, void *)
+    PyObject *tryMemoObject_get_dict(MemoImplT *self)
     {
-        PY_API_FUNC
         self->ext().getFixture()->refreshIfUpdated();
         auto result = Py_OWN(PyDict_New());
         if (!result) {
@@ -707,6 +711,13 @@ namespace db0::python
         return result.steal();
     }
 
+    template <typename MemoImplT>
+    PyObject *PyAPI_MemoObject_get_dict(MemoImplT *self, void *)
+    {
+        PY_API_FUNC
+        return runSafe(tryMemoObject_get_dict<MemoImplT>, self);
+    }
+
     static PyMethodDef MemoObject_methods[] = {
         {"__dir__", (PyCFunction)PyAPI_MemoObject_dir<MemoObject>, METH_NOARGS, nullptr},
         {NULL}  /* Sentinel */
diff --git a/src/dbzero/bindings/python/PyAPI.cpp b/src/dbzero/bindings/python/PyAPI.cpp
index 10003ac..6d10f1a 100644
--- a/src/dbzero/bindings/python/PyAPI.cpp
+++ b/src/dbzero/bindings/python/PyAPI.cpp
@@ -1035,6 +1035,12 @@ namespace db0::python
 #endif
     
 #ifndef NDEBUG
+    PyObject *tryGetDRAM_IOMapFromArgs(PyObject *args, PyObject *kwargs)
+    {
+        auto fixture = getPrefixFromArgs(args, kwargs, "prefix");
+        return tryGetDRAM_IOMap(*fixture);
+    }
+
     PyObject *getDRAM_IOMap(PyObject *, PyObject *args, PyObject *kwargs)
     {
         PY_API_FUNC
@@ -1048,8 +1054,7 @@ namespace db0::python
             return runSafe(tryGetDRAM_IOMapFromFile, path);
         }
         
-        auto fixture = getPrefixFromArgs(args, kwargs, "prefix");
-        return runSafe(tryGetDRAM_IOMap, *fixture);
+        return runSafe(tryGetDRAM_IOMapFromArgs, args, kwargs);
     } 
 #endif
     
diff --git a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
index 7ef3c05..0ea40a3 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
@@ -201,9 +201,8 @@ namespace db0::python
         return runSafe(tryPyObjectIterable_GetItemSlice, py_iterable, py_elem);
     }
     
-    int PyAPI_PyObjectIterable_bool(PyObjectIterable *py_iterable)
+    int tryPyObjectIterable_bool(PyObjectIterable *py_iterable)
     {
-        PY_API_FUNC
         // check if the iterable is empty
         if (py_iterable->ext().empty()) {
             return 0; // False
@@ -211,6 +210,12 @@ namespace db0::python
         return 1; // True
     }
 
+    int PyAPI_PyObjectIterable_bool(PyObjectIterable *py_iterable)
+    {
+        PY_API_FUNC
+        return runSafe<-1>(tryPyObjectIterable_bool, py_iterable);
+    }
+
     static PyMappingMethods PyObjectIterable_as_mapping = {
         .mp_length = (lenfunc)PyAPI_PyObjectIterable_len,
         .mp_subscript = (binaryfunc)PyAPI_PyObjectIterable_GetItemSlice
diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index b42e9d9..e990f6a 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -446,13 +446,19 @@ namespace db0::python
         return PyUnicode_FromString(self->ext().m_str_repr.c_str());
     }
     
-    PyObject *PyEnumValue_repr(PyEnumValue *self)
+    PyObject *tryPyEnumValue_repr(PyEnumValue *self)
     {        
         auto &enum_factory = self->ext().m_fixture.safe_lock()->get<db0::object_model::EnumFactory>();
         auto enum_ = enum_factory.getEnumByUID(self->ext().m_enum_uid);
         return PyUnicode_FromFormat("<EnumValue %s.%s>", enum_->getName().c_str(), self->ext().m_str_repr.c_str());
     }
 
+    PyObject *PyEnumValue_repr(PyEnumValue *self)
+    {
+        PY_API_FUNC
+        return runSafe(tryPyEnumValue_repr, self);
+    }
+
     PyObject *PyEnumValueRepr_str(PyEnumValueRepr *self) {
         return PyUnicode_FromString(self->ext().m_str_repr.c_str());
     }
-- 
2.43.0


From ea2f7e36649ae6baa8395915dc2219bb968a91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 21/42] fix: memo types whose module is not loaded are refused
 instead of crashing

---
 src/dbzero/bindings/python/Memo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 8f180fc..bc392ea 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -594,7 +594,11 @@ namespace db0::python
             return nullptr;            
         }
 
-        return Py_NEW(PyDict_GetItem(*modules_dict, module_name));
+        auto py_module = PyDict_GetItem(*modules_dict, module_name);
+        if (!py_module) {
+            return nullptr;
+        }
+        return Py_NEW(py_module);
     }
     
     // Merge two python dicts, take all keys from first and specific keys from second
-- 
2.43.0


From 9345f4c9ce5d63b1e223a9f1625fa59c9a5fb6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 22/42] fix: strings that cannot be encoded as UTF-8 raise an
 error instead of crashing

---
 src/dbzero/bindings/python/Memo.cpp           |  8 +++++--
 src/dbzero/bindings/python/PyAPI.cpp          | 10 ++++++---
 src/dbzero/bindings/python/PyHash.cpp         |  2 +-
 src/dbzero/bindings/python/PyInternalAPI.cpp  | 12 +++++-----
 src/dbzero/bindings/python/PyToolkit.cpp      | 22 ++++++++++++++-----
 src/dbzero/bindings/python/PyToolkit.hpp      |  3 +++
 .../bindings/python/collections/PyDict.cpp    | 10 +++++++--
 src/dbzero/bindings/python/types/PyEnum.cpp   |  2 +-
 src/dbzero/object_model/value/Member.cpp      |  2 +-
 9 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index bc392ea..6436b5b 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -486,7 +486,7 @@ namespace db0::python
                 return -1;
             } else {
                 // considered as a non-mutating operation
-                self->ext().setPreInit(PyUnicode_AsUTF8(attr), value);
+                self->ext().setPreInit(PyToolkit::asUTF8(attr), value);
             }
         } catch (const std::exception &e) {
             PyErr_SetString(PyExc_AttributeError, e.what());
@@ -969,7 +969,11 @@ namespace db0::python
                     PyErr_SetString(PyExc_TypeError, "Expected list of strings");
                     return NULL;
                 }
-                init_vars.push_back(PyUnicode_AsUTF8(item));
+                auto init_var = PyUnicode_AsUTF8(item);
+                if (!init_var) {
+                    return NULL;
+                }
+                init_vars.push_back(init_var);
             }
         }
         
diff --git a/src/dbzero/bindings/python/PyAPI.cpp b/src/dbzero/bindings/python/PyAPI.cpp
index 6d10f1a..dcf9e31 100644
--- a/src/dbzero/bindings/python/PyAPI.cpp
+++ b/src/dbzero/bindings/python/PyAPI.cpp
@@ -258,7 +258,7 @@ namespace db0::python
                 PyErr_SetString(PyExc_TypeError, "Invalid argument type: path");
                 return NULL;
             }
-            str_path = PyUnicode_AsUTF8(py_path);
+            str_path = PyToolkit::asUTF8(py_path);
         }
 
         // py_config must be a dict
@@ -422,7 +422,7 @@ namespace db0::python
         db0::swine_ptr<Fixture> fixture;
         
         if (PyUnicode_Check(py_object)) {
-            auto uuid = PyUnicode_AsUTF8(py_object);
+            auto uuid = PyToolkit::asUTF8(py_object);
             auto object_id = ObjectId::tryFromBase32(uuid);
             if (!object_id) {
                 Py_RETURN_NONE;
@@ -748,7 +748,11 @@ namespace db0::python
                 PyErr_SetString(PyExc_TypeError, "Only string type is allowed for enum values");
                 return NULL;
             }
-            enum_values.push_back(PyUnicode_AsUTF8(py_item));
+            auto enum_value = PyUnicode_AsUTF8(py_item);
+            if (!enum_value) {
+                return NULL;
+            }
+            enum_values.push_back(enum_value);
         }
         
         const char *type_id = (py_enum_type_id && py_enum_type_id != Py_None ) ? PyUnicode_AsUTF8(py_enum_type_id) : nullptr;
diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index 7d9a42c..296dff4 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -21,7 +21,7 @@ namespace db0::python
     
     template <> std::int64_t getPyHashImpl<TypeId::STRING>(db0::swine_ptr<Fixture> &, PyObject *key)
     {
-        auto unicode_value = PyUnicode_AsUTF8(key);
+        auto unicode_value = PyToolkit::asUTF8(key);
         return murmurhash64A(unicode_value, std::strlen(unicode_value));
     }
 
diff --git a/src/dbzero/bindings/python/PyInternalAPI.cpp b/src/dbzero/bindings/python/PyInternalAPI.cpp
index 3d21a1a..5be4031 100644
--- a/src/dbzero/bindings/python/PyInternalAPI.cpp
+++ b/src/dbzero/bindings/python/PyInternalAPI.cpp
@@ -72,7 +72,7 @@ namespace db0::python
         assert(py_id);
         if (PyUnicode_Check(py_id)) {
             // fetch by UUID        
-            auto uuid = PyUnicode_AsUTF8(py_id);
+            auto uuid = PyToolkit::asUTF8(py_id);
             return fetchObject(snapshot, ObjectId::fromBase32(uuid), type_arg);
         }
 
@@ -94,7 +94,7 @@ namespace db0::python
         assert(py_id);
         if (PyUnicode_Check(py_id)) {
             // exists by UUID
-            auto uuid = PyUnicode_AsUTF8(py_id);
+            auto uuid = PyToolkit::asUTF8(py_id);
             auto object_id = ObjectId::tryFromBase32(uuid);
             if (!object_id) {
                 return false;
@@ -535,7 +535,7 @@ namespace db0::python
         if (!PyUnicode_Check(maybe_prefix_name)) {
             THROWF(db0::InputException) << "Invalid argument type: expected prefix name string";
         }
-        auto prefix_name = PyUnicode_AsUTF8(maybe_prefix_name);
+        auto prefix_name = PyToolkit::asUTF8(maybe_prefix_name);
         return workspace.tryFindFixture(prefix_name);
     }
     
@@ -546,7 +546,7 @@ namespace db0::python
         if (!maybe_prefix_name || !PyUnicode_Check(maybe_prefix_name)) {
             THROWF(db0::InputException) << "Invalid argument type: expected prefix name string";
         }
-        auto prefix_name = PyUnicode_AsUTF8(maybe_prefix_name);
+        auto prefix_name = PyToolkit::asUTF8(maybe_prefix_name);
         auto &catalog = workspace.getFixtureCatalog();
         auto px_path = catalog.getPrefixFileName(prefix_name).string();
         return std::unique_ptr<BDevStorage>(new BDevStorage(px_path, AccessType::READ_ONLY, {}, meta_io_step_size, flags));
@@ -933,7 +933,7 @@ namespace db0::python
 
                 // set the attribute on the object
                 if (PyObject_SetAttr(target, key, value) < 0) {
-                    PyErr_Format(PyExc_RuntimeError, "Failed to set attribute '%s'", PyUnicode_AsUTF8(key));
+                    PyErr_Format(PyExc_RuntimeError, "Failed to set attribute '%U'", key);
                     return nullptr;
                 }
             }
@@ -1023,7 +1023,7 @@ namespace db0::python
         // retrieve output file name
         std::string output_file_name;
         if (PyUnicode_Check(py_output)) {
-            output_file_name = PyUnicode_AsUTF8(py_output);
+            output_file_name = PyToolkit::asUTF8(py_output);
         } else {
             PyErr_SetString(PyExc_TypeError, "Invalid output argument type");
             return NULL;
diff --git a/src/dbzero/bindings/python/PyToolkit.cpp b/src/dbzero/bindings/python/PyToolkit.cpp
index 3d341d2..85948e4 100644
--- a/src/dbzero/bindings/python/PyToolkit.cpp
+++ b/src/dbzero/bindings/python/PyToolkit.cpp
@@ -45,7 +45,7 @@ namespace db0::python
             PyErr_Fetch(&ptype, &pvalue, &ptraceback);
             PyObject* str_repr = PyObject_Str(pvalue);
             const char* error_msg = str_repr ? PyUnicode_AsUTF8(str_repr) : "Unknown Python error";
-            std::string error_str(error_msg);
+            std::string error_str(error_msg ? error_msg : "Unknown Python error");
             Py_XDECREF(str_repr);
             Py_XDECREF(ptype);
             Py_XDECREF(pvalue);
@@ -56,6 +56,15 @@ namespace db0::python
         }
     }
     
+    const char *PyToolkit::asUTF8(ObjectPtr py_object)
+    {
+        auto result = py_object ? PyUnicode_AsUTF8(py_object) : nullptr;
+        if (!result) {
+            throwErrorWithPyErrorCheck("Invalid string: ", "unable to encode as UTF-8");
+        }
+        return result;
+    }
+
     std::string PyToolkit::getFullyQualifiedName(ObjectPtr func_obj) {
         if (!func_obj) {
             THROWF(db0::InputException) << "Null function object" << THROWF_END;
@@ -200,7 +209,7 @@ namespace db0::python
         if (!py_module_name) {
             return std::nullopt;
         }
-        auto result = std::string(PyUnicode_AsUTF8(*py_module_name));
+        auto result = std::string(asUTF8(*py_module_name));
         if (result == "__main__") {
             // for Memo types we can determine the actual module name from the file name
             // (if stored with the type decoration)
@@ -579,7 +588,7 @@ namespace db0::python
             THROWF(db0::InputException) << "Unable to resolve object as tag";
         }
                 
-        return string_pool.toAddress(string_pool.get(PyUnicode_AsUTF8(py_object)));
+        return string_pool.toAddress(string_pool.get(asUTF8(py_object)));
     }
     
     std::uint64_t PyToolkit::addTagFromString(ObjectPtr py_object, db0::pools::RC_LimitedStringPool &string_pool, bool &inc_ref)
@@ -588,7 +597,7 @@ namespace db0::python
             // unable to resolve as tag
             THROWF(db0::InputException) << "Unable to resolve object as tag";
         }
-        return string_pool.toAddress(string_pool.add(inc_ref, PyUnicode_AsUTF8(py_object)));
+        return string_pool.toAddress(string_pool.add(inc_ref, asUTF8(py_object)));
     }
 
     bool PyToolkit::isIterable(ObjectPtr py_object) {
@@ -693,7 +702,8 @@ namespace db0::python
         Py_XDECREF(pvalue);
         Py_XDECREF(ptraceback);
 
-        return PyUnicode_AsUTF8(*pstr);
+        auto str_error = pstr.get() ? PyUnicode_AsUTF8(*pstr) : nullptr;
+        return str_error ? str_error : "Unknown Python error";
     }
     
     std::uint64_t PyToolkit::getFixtureUUID(ObjectPtr py_object)
@@ -872,7 +882,7 @@ namespace db0::python
         if (!PyUnicode_Check(*py_value)) {
             THROWF(db0::InputException) << "Invalid type of: " << key << ". String expected" << THROWF_END;
         }
-        return std::string(PyUnicode_AsUTF8(*py_value));
+        return std::string(asUTF8(*py_value));
     }
     
     bool PyToolkit::hasKey(ObjectPtr py_object, const std::string &key)
diff --git a/src/dbzero/bindings/python/PyToolkit.hpp b/src/dbzero/bindings/python/PyToolkit.hpp
index 6b918e1..a666572 100644
--- a/src/dbzero/bindings/python/PyToolkit.hpp
+++ b/src/dbzero/bindings/python/PyToolkit.hpp
@@ -223,6 +223,9 @@ namespace db0::python
         
         // Throw exception with Python error details if available
         static void throwErrorWithPyErrorCheck(const std::string& message, const std::string& error_detail = "");
+
+        // UTF-8 contents of a Python string, throws if the object is not a string or cannot be encoded (e.g. lone surrogates)
+        static const char *asUTF8(ObjectPtr);
         
         // Get fully qualified name of a Python function (validates and rejects invalid function types)
         static std::string getFullyQualifiedName(ObjectPtr func_obj);
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 75522eb..a0ab8eb 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -45,7 +45,10 @@ namespace db0::python
             auto hash = maybe_hash->first;
             if (hash == -1) {
                 auto py_str = Py_OWN(PyObject_Str(py_key));
-                auto str_name =  PyUnicode_AsUTF8(*py_str);            
+                auto str_name = py_str.get() ? PyUnicode_AsUTF8(*py_str) : nullptr;
+                if (!str_name) {
+                    return nullptr;
+                }
                 auto error_message = "Cannot get hash for key: " + std::string(str_name);
                 PyErr_SetString(PyExc_KeyError, error_message.c_str());
                 return nullptr;
@@ -58,7 +61,10 @@ namespace db0::python
         }     
         
         auto py_str = Py_OWN(PyObject_Str(py_key));
-        auto str_name =  PyUnicode_AsUTF8(*py_str);
+        auto str_name = py_str.get() ? PyUnicode_AsUTF8(*py_str) : nullptr;
+        if (!str_name) {
+            return nullptr;
+        }
         PyErr_SetString(PyExc_KeyError, str_name);
         return nullptr;
     }
diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index e990f6a..c53bfd1 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -103,7 +103,7 @@ namespace db0::python
         auto type_def = self->ext().m_enum_type_def;
         const auto &enum_def = type_def->m_enum_def;
         if (PyUnicode_Check(py_key)) {
-            auto key = PyUnicode_AsUTF8(py_key);
+            auto key = PyToolkit::asUTF8(py_key);
             if (std::find(enum_def.m_values.begin(), enum_def.m_values.end(), key) == enum_def.m_values.end()) {
                 PyErr_SetString(PyExc_KeyError, "Key not found");
                 return NULL;
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 41c226c..1c0d59f 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -86,7 +86,7 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags access_mode)
     {
         // create string-ref member and take its address
-        return db0::v_object<db0::o_string>(*fixture, PyUnicode_AsUTF8(obj_ptr), access_mode).getAddress();
+        return db0::v_object<db0::o_string>(*fixture, PyToolkit::asUTF8(obj_ptr), access_mode).getAddress();
     }
     
     // OBJECT specialization (mutable or immutable)
-- 
2.43.0


From d3fbf149d9fee94c65fcb125b8ad67c9b22e1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 23/42] fix: weak_proxy of a non-memo object raises TypeError
 instead of aborting

---
 src/dbzero/bindings/python/PyWeakProxy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/PyWeakProxy.cpp b/src/dbzero/bindings/python/PyWeakProxy.cpp
index 993de33..7669e71 100644
--- a/src/dbzero/bindings/python/PyWeakProxy.cpp
+++ b/src/dbzero/bindings/python/PyWeakProxy.cpp
@@ -42,7 +42,10 @@ namespace db0::python
     
     PyObject *tryWeakProxy(PyObject *py_obj)
     {
-        assert(PyAnyMemo_Check(py_obj));
+        if (!PyAnyMemo_Check(py_obj)) {
+            PyErr_SetString(PyExc_TypeError, "Invalid argument type (expected a memo object)");
+            return nullptr;
+        }
         auto py_weak_proxy = PyObject_New(PyWeakProxy, &PyWeakProxyType);
 
         if (!py_weak_proxy) {
-- 
2.43.0


From f131b1b7d2c4eedc70ce643f5d968643f23b6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 24/42] fix: set difference reports errors of the membership
 test

---
 src/dbzero/bindings/python/collections/PySet.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 2d6b241..85aca6f 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -569,7 +569,11 @@ namespace db0::python
         ObjectSharedPtr item;
         auto &set_impl = set_result->modifyExt();        
         Py_FOR(item, it) {
-            if (!PySequence_Contains(ob, *item)) {
+            auto contains = PySequence_Contains(ob, *item);
+            if (contains < 0) {
+                THROWF(db0::InputException) << PyToolkit::getLastError();
+            }
+            if (!contains) {
                 auto hash = getPyHash(*fixture, *item);
                 set_impl.append(fixture, hash, item);
             }            
@@ -581,7 +585,11 @@ namespace db0::python
                 THROWF(db0::InputException) <<  "argument must be a sequence or set";
             }
             Py_FOR(item, it) {            
-                if (!PySequence_Contains((PyObject*)set_input, *item)) {
+                auto contains = PySequence_Contains((PyObject*)set_input, *item);
+                if (contains < 0) {
+                    THROWF(db0::InputException) << PyToolkit::getLastError();
+                }
+                if (!contains) {
                     auto hash = getPyHash(*fixture, *item);
                     set_impl.append(fixture, hash, item);
                 }                
-- 
2.43.0


From 57ae4f5e5754deaf6211ce9e478d9ea4e21a6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 25/42] fix: bytearray index errors are IndexError and item
 deletion is refused instead of crashing

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 2ccd65b..a9df2bf 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -38,7 +38,7 @@ namespace db0::object_model
     ByteArray::ObjectSharedPtr ByteArray::getItem(std::size_t i) const
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         auto fixture = this->getFixture();
         return unloadMember<LangToolkit>(
@@ -53,7 +53,10 @@ namespace db0::object_model
     void ByteArray::setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value)
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
+        }
+        if (!lang_value) {
+            THROWF(db0::InputException) << "Item deletion is not supported";
         }
         auto &type_manager = LangToolkit::getTypeManager();
         v_bvector::setItem(i, std::byte(type_manager.extractInt64(lang_value)));
-- 
2.43.0


From 813bd8f742ed70da5dc12d175ecdf613424aa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 26/42] fix: filter() releases the predicate's result and
 reports a failing truth test

---
 src/dbzero/bindings/python/PyAPI.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/PyAPI.cpp b/src/dbzero/bindings/python/PyAPI.cpp
index dcf9e31..a5e5e51 100644
--- a/src/dbzero/bindings/python/PyAPI.cpp
+++ b/src/dbzero/bindings/python/PyAPI.cpp
@@ -808,11 +808,15 @@ namespace db0::python
         std::vector<ObjectIterator::FilterFunc> filters;
         ObjectSharedPtr py_filter_ptr = ObjectSharedPtr(py_filter);
         filters.push_back([py_filter_ptr](PyObject *py_item) {
-            PyObject *py_result = PyObject_CallFunctionObjArgs(py_filter_ptr.get(), py_item, NULL);                    
+            auto py_result = Py_OWN(PyObject_CallFunctionObjArgs(py_filter_ptr.get(), py_item, NULL));
             if (!py_result) {
                 THROWF(db0::InputException) << PyToolkit::getLastError();
             }
-            return PyObject_IsTrue(py_result);
+            auto is_true = PyObject_IsTrue(*py_result);
+            if (is_true < 0) {
+                THROWF(db0::InputException) << PyToolkit::getLastError();
+            }
+            return is_true != 0;
         });
         
         auto &iter = reinterpret_cast<PyObjectIterable*>(py_query)->modifyExt();
-- 
2.43.0


From db81ab171ab791cad2d25b07c8ad3c88660792c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 27/42] fix: attribute access on an enum without a workspace
 refuses names that cannot be encoded as UTF-8 (aborted)

---
 src/dbzero/bindings/python/types/PyEnum.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index c53bfd1..95b21d1 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -46,22 +46,23 @@ namespace db0::python
     
     shared_py_object<PyObject*> tryPyEnum_getenum(PyEnum *self, PyObject *attr)
     {        
+        auto str_value = PyToolkit::asUTF8(attr);
         auto &enum_data = self->ext();
         if (enum_data.exists()) {
-            return enum_data.get().tryGetLangValue(PyUnicode_AsUTF8(attr));
+            return enum_data.get().tryGetLangValue(str_value);
         } else {
             if (PyToolkit::getPyWorkspace().hasWorkspace()) {
                 // note that enum is created on demand
                 auto enum_ptr = self->modifyExt().tryCreate();
                 if (enum_ptr) {
-                    return enum_ptr->tryGetLangValue(PyUnicode_AsUTF8(attr));
+                    return enum_ptr->tryGetLangValue(str_value);
                 }
             }
             
             // if unable to create (e.g. prefix not accessible for read/write or Worspace unavailable) then
             // return a value placeholder
-            if (enum_data.hasValue(PyUnicode_AsUTF8(attr))) {
-                return makePyEnumValueRepr(enum_data.m_enum_type_def, PyUnicode_AsUTF8(attr)).steal();
+            if (enum_data.hasValue(str_value)) {
+                return makePyEnumValueRepr(enum_data.m_enum_type_def, str_value).steal();
             }
             return nullptr;
         }
-- 
2.43.0


From 2d58823c1775ed146204f6cd9d294f000a12d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 28/42] fix: references obtained while reading enum members,
 loading dicts, iterating queries and calling bytearray methods are released
 (leaked)

---
 src/dbzero/bindings/python/PyInternalAPI.cpp           | 2 +-
 src/dbzero/bindings/python/collections/PyByteArray.cpp | 4 ++--
 src/dbzero/bindings/python/collections/PyDict.cpp      | 8 +++++---
 src/dbzero/bindings/python/iter/PyObjectIterator.cpp   | 2 +-
 src/dbzero/bindings/python/types/PyEnum.cpp            | 2 +-
 src/dbzero/object_model/value/Member.cpp               | 2 +-
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/bindings/python/PyInternalAPI.cpp b/src/dbzero/bindings/python/PyInternalAPI.cpp
index 5be4031..e9811bb 100644
--- a/src/dbzero/bindings/python/PyInternalAPI.cpp
+++ b/src/dbzero/bindings/python/PyInternalAPI.cpp
@@ -205,7 +205,7 @@ namespace db0::python
             auto &class_factory = db0::object_model::getClassFactory(*fixture);
             auto class_ptr = class_factory.getTypeByAddr(addr).m_class;
             // return as a dbzero class instance
-            return makeClass(class_ptr);
+            return { makeClass(class_ptr), false };
         }
         
         THROWF(db0::InputException) << "Invalid object ID" << THROWF_END;
diff --git a/src/dbzero/bindings/python/collections/PyByteArray.cpp b/src/dbzero/bindings/python/collections/PyByteArray.cpp
index 99f96de..1397bd2 100644
--- a/src/dbzero/bindings/python/collections/PyByteArray.cpp
+++ b/src/dbzero/bindings/python/collections/PyByteArray.cpp
@@ -52,13 +52,13 @@ namespace db0::python
     
     PyObject *ByteArray_CallMethod(const char * name, ByteArrayObject *object_inst, PyObject* args, PyObject* kwargs)
     {
-        auto py_obj = callMethod(name, object_inst, args, kwargs);
+        auto py_obj = Py_OWN(callMethod(name, object_inst, args, kwargs));
         if (!py_obj) {
             return NULL;
         }
         auto bytearray_object = ByteArrayObject_new(&ByteArrayObjectType, NULL, NULL);
         db0::FixtureLock lock(PyToolkit::getPyWorkspace().getWorkspace().getCurrentFixture());
-        makeByteArrayFromPyBytes(*lock, bytearray_object, py_obj);
+        makeByteArrayFromPyBytes(*lock, bytearray_object, *py_obj);
         lock->getLangCache().add(bytearray_object->ext().getAddress(), bytearray_object);
         return bytearray_object;
     }
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index a0ab8eb..c1f3edb 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -623,9 +623,11 @@ namespace db0::python
                 
                 PySafeDict_SetItem(*py_result, key, result);
             } else if (DictObject_Check(py_dict)) {
-                auto result = Py_OWN(tryLoad(
-                    tryDictObject_GetItem((DictObject*)py_dict, *elem), kwargs, nullptr, load_stack_ptr)
-                );
+                auto value = Py_OWN(tryDictObject_GetItem((DictObject*)py_dict, *elem));
+                if (!value) {
+                    return nullptr;
+                }
+                auto result = Py_OWN(tryLoad(*value, kwargs, nullptr, load_stack_ptr));
                 if (!result) {
                     return nullptr;
                 }
diff --git a/src/dbzero/bindings/python/iter/PyObjectIterator.cpp b/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
index c664e92..09d783e 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
@@ -56,7 +56,7 @@ namespace db0::python
         auto py_item = iter.next();
         if (py_item.get()) {
             if (iter.numDecorators() > 0) {
-                return decoratedItem(py_item.steal(), iter.getDecorators());
+                return decoratedItem(*py_item, iter.getDecorators());
             } else {
                 return py_item.steal();
             }
diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index 95b21d1..7d9d417 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -62,7 +62,7 @@ namespace db0::python
             // if unable to create (e.g. prefix not accessible for read/write or Worspace unavailable) then
             // return a value placeholder
             if (enum_data.hasValue(str_value)) {
-                return makePyEnumValueRepr(enum_data.m_enum_type_def, str_value).steal();
+                return shared_py_cast<PyObject*>(makePyEnumValueRepr(enum_data.m_enum_type_def, str_value));
             }
             return nullptr;
         }
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 1c0d59f..0f5ce45 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -583,7 +583,7 @@ namespace db0::object_model
     {
         auto &enum_factory = fixture->get<EnumFactory>();
         auto enum_value_uid = EnumValue_UID(value.cast<std::uint64_t>());
-        return enum_factory.getEnumByUID(enum_value_uid.m_enum_uid)->getLangValue(enum_value_uid).steal();
+        return enum_factory.getEnumByUID(enum_value_uid.m_enum_uid)->getLangValue(enum_value_uid);
     }
     
     // ENUM value specialization
-- 
2.43.0


From 63f03302de42e792d096c4e09b50444d56820771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 29/42] fix: dict pop() and del compare the key inside a hash
 bucket (removed another key's item)

---
 src/dbzero/object_model/dict/Dict.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 6f6e2ff..b0108a8 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -215,9 +215,21 @@ namespace db0::object_model
         auto [key, address] = *iter;
         auto bindex = address.getIndex(this->getMemspace());
         auto it = bindex.beginJoin(1);
+        auto fixture = this->getFixture();        
+        // NOTE: keys sharing the hash value are stored together
+        while (!it.is_end()) {
+            auto [storage_class, value] = (*it).m_first;
+            auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(obj, member.get())) {
+                break;
+            }
+            ++it;
+        }
+        if (it.is_end()) {
+            return nullptr;
+        }
         auto [key_storage_class, key_value] = (*it).m_first;
         auto [storage_class, value] = (*it).m_second;
-        auto fixture = this->getFixture();        
         
         auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
 
-- 
2.43.0


From de2bd7745a55155f6e18fa6a964e05a6bf6621f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 30/42] fix: expired references are released, and their type is
 readied so that releasing them does not crash

---
 src/dbzero/bindings/python/MemoExpiredRef.cpp | 2 +-
 src/dbzero/bindings/python/dbzero.cpp         | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/MemoExpiredRef.cpp b/src/dbzero/bindings/python/MemoExpiredRef.cpp
index c9d0360..66fc387 100644
--- a/src/dbzero/bindings/python/MemoExpiredRef.cpp
+++ b/src/dbzero/bindings/python/MemoExpiredRef.cpp
@@ -65,7 +65,7 @@ namespace db0::python
         }
         
         py_expired_ref->init(fixture_uuid, address);        
-        return reinterpret_cast<PyObject*>(py_expired_ref);
+        return Py_OWN(reinterpret_cast<PyObject*>(py_expired_ref));
     }
     
 }
diff --git a/src/dbzero/bindings/python/dbzero.cpp b/src/dbzero/bindings/python/dbzero.cpp
index 3606e68..4a21e67 100644
--- a/src/dbzero/bindings/python/dbzero.cpp
+++ b/src/dbzero/bindings/python/dbzero.cpp
@@ -12,6 +12,7 @@
 #include "PyAtomic.hpp"
 #include "PyLocked.hpp"
 #include "PyWeakProxy.hpp"
+#include "MemoExpiredRef.hpp"
 #include <dbzero/bindings/python/types/PyObjectId.hpp>
 #include <dbzero/bindings/python/collections/PyList.hpp>
 #include <dbzero/bindings/python/collections/PyByteArray.hpp>
@@ -214,6 +215,7 @@ PyMODINIT_FUNC PyInit_dbzero(void)
         &py::PyTagType,
         &py::PyLockedType,
         &py::PyWeakProxyType,
+        &py::MemoExpiredRefType,
     };
     
     // register all types
-- 
2.43.0


From a3e5a080acaf73363091025d357328e5c04c6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 31/42] fix: indexing an enum with its length raises IndexError
 (aborted)

---
 src/dbzero/bindings/python/types/PyEnum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index 7d9d417..dc47064 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -115,7 +115,7 @@ namespace db0::python
             if (index < 0) {
                 index += enum_def.m_values.size();
             }
-            if (index < 0 || index > (long)enum_def.m_values.size()) {
+            if (index < 0 || index >= (long)enum_def.m_values.size()) {
                 PyErr_SetString(PyExc_IndexError, "Index out of range");
                 return NULL;
             }
@@ -207,7 +207,7 @@ namespace db0::python
             if (index < 0) {
                 index += enum_->size();
             }
-            if (index < 0 || index > (long)enum_->size()) {
+            if (index < 0 || index >= (long)enum_->size()) {
                 PyErr_SetString(PyExc_IndexError, "Index out of range");
                 return NULL;
             }
-- 
2.43.0


From 315015dd3539d975e93af63906e35831f5f8162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:08 +0000
Subject: [PATCH 32/42] fix: list pop()/remove(), dict item overwrite and set
 pop()/remove() release the reference to the removed item (its object was
 never destroyed)

---
 src/dbzero/object_model/dict/Dict.cpp |  2 ++
 src/dbzero/object_model/list/List.cpp | 10 ++++++++--
 src/dbzero/object_model/set/Set.cpp   |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index b0108a8..c3e4296 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -137,8 +137,10 @@ namespace db0::object_model
                 auto [storage_class, value] = (*it_join).m_first;
                 auto member = unloadMember<LangToolkit>(*fixture, storage_class, value, 0, member_flags);
                 if (LangToolkit::compare(key, member.get())) {
+                    auto [old_storage_class, old_value] = (*it_join).m_second;
                     bindex.erase(*it_join);
                     unrefMember<LangToolkit>(*fixture, storage_class, value);
+                    unrefMember<LangToolkit>(*fixture, old_storage_class, old_value);
                     --modify().m_size;
                     break;
                 }
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index d3643f8..f64c8c1 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -174,10 +174,16 @@ namespace db0::object_model
         restoreIterators();
     }
 
-    void List::swapAndPop(FixtureLock &, const std::vector<std::uint64_t> &element_numbers) 
+    void List::swapAndPop(FixtureLock &fixture, const std::vector<std::uint64_t> &element_numbers) 
     {
-        // FIXME: drop items
+        std::vector<o_typed_item> items;
+        for (auto element_number: element_numbers) {
+            items.push_back((*this)[element_number]);
+        }
         v_bvector<o_typed_item>::swapAndPop(element_numbers);
+        for (auto [storage_class, value]: items) {
+            unrefMember<LangToolkit>(*fixture, storage_class, value);
+        }
         restoreIterators();
     }
     
diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index 51223a9..e134dd7 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -173,7 +173,6 @@ namespace db0::object_model
             if (LangToolkit::compare(key_value, member.get())) {
                 if (bindex.size() == 1) {
                     m_index.erase(iter);
-                    unrefMember<LangToolkit>(fixture, storage_class, value);
                     bindex.destroy();
                 } else {
                     bindex.erase(*it);
@@ -186,6 +185,7 @@ namespace db0::object_model
                         m_index.insert({it_key, bindex});
                     }
                 }
+                unrefMember<LangToolkit>(fixture, storage_class, value);
                 --modify().m_size;
                 restoreIterators();
                 return true;
@@ -249,6 +249,7 @@ namespace db0::object_model
                 m_index.insert({key, bindex});
             }
         }
+        unrefMember<LangToolkit>(fixture, storage_class, value);
         --modify().m_size;
         restoreIterators();
         return member;
-- 
2.43.0


From 394a0e4890e966fa612fa894ceb368c986b536f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:08 +0000
Subject: [PATCH 33/42] fix: copies and concatenations of lists and dicts hold
 their own references to the items (items were destroyed while still in the
 copy)

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 7 ++++++-
 src/dbzero/bindings/python/collections/PyList.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index c1f3edb..85e9510 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -416,7 +416,12 @@ namespace db0::python
     {
         auto py_dict = DictDefaultObject_new();
         auto lock = db0::FixtureLock(py_src_dict->ext().getFixture());
-        py_src_dict->ext().copy(&py_dict.get()->modifyExt(), *lock);
+        py_dict->makeNew(*lock);
+        // NOTE: members need to be referenced by the copy
+        auto args = Py_OWN(PySafeTuple_Pack(Py_BORROW((PyObject*)py_src_dict)));
+        if (!args || !tryDictObject_update(py_dict.get(), *args, nullptr)) {
+            return nullptr;
+        }
         lock->getLangCache().add(py_dict.get()->ext().getAddress(), py_dict.get());
         return py_dict.steal();
     }
diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index 540756c..03b4d19 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -38,7 +38,12 @@ namespace db0::python
         // make actual dbzero instance, use default fixture
         auto py_list = Py_OWN(ListObject_new(&ListObjectType, NULL, NULL));
         db0::FixtureLock lock(py_src_list->ext().getFixture());
-        py_src_list->ext().copy(&py_list->modifyExt(), *lock);
+        py_list->makeNew(*lock);
+        // NOTE: members need to be referenced by the copy
+        PyObject *py_src = (PyObject*)py_src_list;
+        if (!tryObjectT_extend<ListObject>(py_list.get(), &py_src, 1)) {
+            return nullptr;
+        }
         lock->getLangCache().add(py_list->ext().getAddress(), py_list.get());
         return py_list;
     }
-- 
2.43.0


From 9abb03e0974f3c70c8946042b206f9ef460831d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:09 +0000
Subject: [PATCH 34/42] fix: lists and bytearrays of different sizes are
 unequal for != as well

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 3 ---
 src/dbzero/object_model/list/List.cpp       | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index a9df2bf..62c1086 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -143,9 +143,6 @@ namespace db0::object_model
 
     bool ByteArray::operator!=(const ByteArray &bytearray) const
     {
-        if (size() != bytearray.size()) {
-            return false;
-        }
         return !(*this == bytearray);
     }
     
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index f64c8c1..3a43cc3 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -161,9 +161,6 @@ namespace db0::object_model
 
     bool List::operator!=(const List &list) const
     {
-        if (size() != list.size()) {
-            return false;
-        }
         return !(*this == list);
     }
 
-- 
2.43.0


From 6982929b31747437dbbec1bce0600ce6086dd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 35/42] fix: a weak reference does not resolve to another
 object allocated at the same address

---
 src/dbzero/bindings/python/PyToolkit.cpp | 15 +++------------
 src/dbzero/object_model/ObjectBase.hpp   |  2 +-
 src/dbzero/object_model/value/Member.cpp |  6 +++---
 3 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/dbzero/bindings/python/PyToolkit.cpp b/src/dbzero/bindings/python/PyToolkit.cpp
index 85948e4..3dab2cc 100644
--- a/src/dbzero/bindings/python/PyToolkit.cpp
+++ b/src/dbzero/bindings/python/PyToolkit.cpp
@@ -376,20 +376,11 @@ namespace db0::python
         return obj_ptr;
     }
     
-    PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, Address addr,
+    PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &, Address,
         std::uint64_t obj_fixture_uuid, UniqueAddress obj_address)
     {
-        // try unloading from cache first
-        auto &lang_cache = fixture->getLangCache();
-        auto obj_ptr = tryUnloadObjectFromCache(lang_cache, addr);
-        
-        if (obj_ptr.get()) {
-            return obj_ptr;
-        }
-        
-        obj_ptr = MemoExpiredRef_new(obj_fixture_uuid, obj_address);
-        lang_cache.add(addr, obj_ptr.get());
-        return obj_ptr;
+        // NOTE: placeholders are never cached since the address might already be assigned to another object
+        return MemoExpiredRef_new(obj_fixture_uuid, obj_address);
     }
     
     PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, const LongWeakRef &weak_ref) {
diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 584a749..a202589 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -186,7 +186,7 @@ namespace db0
             if (instance_id || check_has_refs) {
                 // NOTE: here we use trusted size_of retrieved from the allocator
                 auto stem = BaseT(db0::tag_verified(), fixture->myPtr(address), size_of);
-                if (instance_id && stem->m_header.m_instance_id == instance_id) {
+                if (instance_id && stem->m_header.m_instance_id != instance_id) {
                     return false;
                 }
                 if (check_has_refs && !stem->hasRefs()) {
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 0f5ce45..1697030 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -606,8 +606,8 @@ namespace db0::object_model
         db0::swine_ptr<Fixture> &fixture, Value value, unsigned int, AccessFlags)
     {
         auto address = value.asUniqueAddress();
-        // NOTE: instance_id not validated since it's a trusted reference
-        if (PyToolkit::isExistingObject(fixture, address.getAddress())) {
+        // NOTE: instance_id must be validated since the address might've been reused after the object was deleted
+        if (PyToolkit::isExistingObject(fixture, address.getAddress(), address.getInstanceId())) {
             return PyToolkit::unloadObject(fixture, address);
         } else {
             // NOTE: expired objects are unloaded as MemoExpiredRef (placeholders)
@@ -622,7 +622,7 @@ namespace db0::object_model
         LongWeakRef weak_ref(fixture, value.asAddress());
         auto other_fixture = fixture->getWorkspace().getFixture(weak_ref->m_fixture_uuid);
         auto address = weak_ref->m_address;
-        if (PyToolkit::isExistingObject(other_fixture, address.getAddress())) {
+        if (PyToolkit::isExistingObject(other_fixture, address.getAddress(), address.getInstanceId())) {
             // unload object from a foreign prefix
             return PyToolkit::unloadObject(other_fixture, address);
         } else {
-- 
2.43.0


From eb6792068b2b8914dca046f35c03c33665de6bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 36/42] fix: moving a tuple to another prefix keeps its values
 and rejects items which refer to its own prefix

---
 src/dbzero/object_model/tuple/Tuple.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index 3704af5..f7a8802 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -52,7 +52,7 @@ namespace db0::object_model
         : super_t(tag_no_gc(), fixture, other.size())
     {
         for (std::size_t i = 0; i < other.size(); i++) {
-            auto [storage_class, value] = getData()->items()[i];
+            auto [storage_class, value] = other.getData()->items()[i];
             modify().items()[i] = { storage_class, value };
         }
     }
@@ -170,6 +170,24 @@ namespace db0::object_model
     void Tuple::moveTo(db0::swine_ptr<Fixture> &fixture)
     {
         assert(hasInstance());
+        for (auto &elem: this->getData()->items()) {
+            // NOTE: only items stored by value are meaningful outside of their own fixture
+            switch (elem.m_storage_class) {
+                case StorageClass::NONE:
+                case StorageClass::INT64:
+                case StorageClass::FP_NUMERIC64:
+                case StorageClass::DATETIME:
+                case StorageClass::DATETIME_TZ:
+                case StorageClass::TIME:
+                case StorageClass::TIME_TZ:
+                case StorageClass::DATE:
+                case StorageClass::DECIMAL:
+                case StorageClass::BOOLEAN: break;
+
+                default:
+                    THROWF(db0::InputException) << "Tuple with non-value items cannot be moved to another fixture";
+            }
+        }
         super_t::moveTo(fixture);
     }
     
-- 
2.43.0


From d12989e90f52ea8ad4bea45874f187f3d4df110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 37/42] fix: members replaced, deleted or abandoned in __init__
 release their references

---
 src/dbzero/bindings/python/Memo.cpp           | 12 +++++++
 .../object_model/object/ObjectImplBase.cpp    | 36 +++++++++++++++++--
 .../object_model/object/ObjectImplBase.hpp    |  2 ++
 .../object_model/object/ObjectInitializer.cpp |  9 +++++
 .../object_model/object/ObjectInitializer.hpp |  2 ++
 5 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 6436b5b..7db4d58 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -274,6 +274,13 @@ namespace db0::python
         return 0;
     }
 
+    template <typename MemoImplT>
+    int tryMemoObject_dropPreInit(MemoImplT *self)
+    {
+        self->ext().dropPreInit();
+        return 0;
+    }
+
     template <typename MemoImplT>
     int PyAPI_MemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
     {
@@ -289,6 +296,11 @@ namespace db0::python
                 self->ext().setDefunct();
                 PyObject *ptype, *pvalue, *ptraceback;
                 PyErr_Fetch(&ptype, &pvalue, &ptraceback);
+                // release members assigned before the failure
+                if (runSafe<-1>(tryMemoObject_dropPreInit<MemoImplT>, self) < 0) {
+                    // report the original error
+                    PyErr_Clear();
+                }
                 if (ptype == PyToolkit::getTypeManager().getBadPrefixError()) {
                     // from pvalue
                     std::uint64_t fixture_uuid = PyLong_AsUnsignedLong(pvalue);
diff --git a/src/dbzero/object_model/object/ObjectImplBase.cpp b/src/dbzero/object_model/object/ObjectImplBase.cpp
index fd5f99d..370ac12 100644
--- a/src/dbzero/object_model/object/ObjectImplBase.cpp
+++ b/src/dbzero/object_model/object/ObjectImplBase.cpp
@@ -197,18 +197,27 @@ namespace db0::object_model
             THROWF(db0::InputException) << "Attribute not found: " << field_name;
         }
         
+        auto fixture = initializer.getFixture();
+        FixtureLock lock(fixture);
         for (const auto &field_info: member_id) {
             assert(field_info.first);            
             auto loc = field_info.first.getIndexAndOffset();
             // mark as deleted
             if (field_info.second == 0) {
+                std::pair<StorageClass, Value> old_value { StorageClass::UNDEFINED, {} };
+                initializer.tryGetAt(loc, old_value);
                 initializer.set(loc, StorageClass::DELETED, {});
+                // release the value being removed
+                unrefMember(fixture, old_value.first, old_value.second);
             } else {
                 assert(field_info.second == 2 && "Only fidelity == 2 is supported");
                 if (member_id.hasFidelity(0)) {
                     // remove any existing regular initialization
                     auto loc0 = member_id.get(0).getIndexAndOffset();
+                    std::pair<StorageClass, Value> old_value { StorageClass::UNDEFINED, {} };
+                    initializer.tryGetAt(loc0, old_value);
                     initializer.remove(loc0);
+                    unrefMember(fixture, old_value.first, old_value.second);
                 }                
                 initializer.set(loc, StorageClass::PACK_2, Value::DELETED,
                     lofi_store<2>::mask(loc.second));
@@ -251,14 +260,21 @@ namespace db0::object_model
             // register a regular member with the initializer
             // NOTE: a new member receives the no-cache flag if set (at the type level)
             auto member_flags = type.isNoCache() ? AccessFlags { AccessOptions::no_cache } : AccessFlags();
-            initializer.set(member_id.get(0).getIndexAndOffset(), storage_class,
-                createMember<LangToolkit>(fixture, type_id, storage_class, obj_ptr, member_flags)
-            );
+            auto loc = member_id.get(0).getIndexAndOffset();
+            auto value = createMember<LangToolkit>(fixture, type_id, storage_class, obj_ptr, member_flags);
+            std::pair<StorageClass, Value> old_value { StorageClass::UNDEFINED, {} };
+            initializer.tryGetAt(loc, old_value);
+            initializer.set(loc, storage_class, value);
+            // release the value being replaced
+            unrefMember(fixture, old_value.first, old_value.second);
         } else {
             if (member_id.hasFidelity(0)) {
                 // remove any existing regular initialization
                 auto loc = member_id.get(0).getIndexAndOffset();
+                std::pair<StorageClass, Value> old_value { StorageClass::UNDEFINED, {} };
+                initializer.tryGetAt(loc, old_value);
                 initializer.remove(loc);
+                unrefMember(fixture, old_value.first, old_value.second);
             }
             // For now only fidelity == 2 is supported (lo-fi storage)
             assert(storage_fidelity == 2);
@@ -278,6 +294,20 @@ namespace db0::object_model
         setPreInit(field_name, type_id, obj_ptr);
     }
 
+    template <typename T, typename ImplT>
+    void ObjectImplBase<T, ImplT>::dropPreInit() const
+    {
+        auto initializer = this->hasInstance() ? nullptr : InitManager::instance.findInitializer(*this);
+        if (!initializer || initializer->empty()) {
+            return;
+        }
+        auto fixture = initializer->getFixture();
+        FixtureLock lock(fixture);
+        for (auto &xvalue: initializer->takeValues()) {
+            unrefMember(fixture, xvalue);
+        }
+    }
+
     template <typename T, typename ImplT>
     void ObjectImplBase<T, ImplT>::unrefPosVT(FixtureLock &fixture, FieldID field_id, unsigned int pos, 
         StorageClass storage_class, unsigned int fidelity)
diff --git a/src/dbzero/object_model/object/ObjectImplBase.hpp b/src/dbzero/object_model/object/ObjectImplBase.hpp
index 0c31855..bf90dc0 100644
--- a/src/dbzero/object_model/object/ObjectImplBase.hpp
+++ b/src/dbzero/object_model/object/ObjectImplBase.hpp
@@ -95,6 +95,8 @@ namespace db0::object_model
         void setPreInit(const char *field_name, TypeId type_id, ObjectPtr lang_value) const;
         void setPreInit(const char *field_name, ObjectPtr lang_value) const;
         void removePreInit(const char *field_name) const;
+        // Release all members assigned so far (i.e. when the initialization failed)
+        void dropPreInit() const;
         
         ObjectSharedPtr tryGet(const char *field_name, bool *is_auto_generated = nullptr) const;
         ObjectSharedPtr tryGetAs(const char *field_name, TypeObjectPtr) const;
diff --git a/src/dbzero/object_model/object/ObjectInitializer.cpp b/src/dbzero/object_model/object/ObjectInitializer.cpp
index b109477..7e750e9 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.cpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.cpp
@@ -78,6 +78,15 @@ namespace db0::object_model
         return m_values.tryGetAt(loc.first, result);
     }
     
+    std::vector<XValue> ObjectInitializer::takeValues()
+    {
+        m_values.sortAndMerge();
+        std::vector<XValue> result(m_values.begin(), m_values.end());
+        m_values.clear();
+        m_has_value.clear();
+        return result;
+    }
+    
     db0::swine_ptr<Fixture> ObjectInitializer::getFixture() const {
         return getClass().getFixture();
     }
diff --git a/src/dbzero/object_model/object/ObjectInitializer.hpp b/src/dbzero/object_model/object/ObjectInitializer.hpp
index 1417ef6..67b383a 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.hpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.hpp
@@ -163,6 +163,8 @@ namespace db0::object_model
         // Try pulling an existing initialization value from under a specific index
         // NOTE always the whole value is retrieved (no mask support)
         bool tryGetAt(std::pair<std::uint32_t, std::uint32_t> loc, std::pair<StorageClass, Value> &) const;
+        // Remove and return all values set so far
+        std::vector<XValue> takeValues();
         
         template <typename T>
         bool operator==(const T &other) {
-- 
2.43.0


From 88f2a9a44691b9978c733367b9e42d026f7c286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 38/42] fix: look-up of a missing element in a sorted vector
 dereferenced null, its relocation on insert was not reported

---
 src/dbzero/core/collections/b_index/bindex_interface.hpp | 2 +-
 src/dbzero/core/collections/b_index/mb_index.hpp         | 6 ++++--
 src/dbzero/core/collections/vector/v_sorted_vector.hpp   | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/bindex_interface.hpp b/src/dbzero/core/collections/b_index/bindex_interface.hpp
index d40d937..24bd5c8 100644
--- a/src/dbzero/core/collections/b_index/bindex_interface.hpp
+++ b/src/dbzero/core/collections/b_index/bindex_interface.hpp
@@ -512,7 +512,7 @@ namespace db0::bindex::interface
             auto &index = *reinterpret_cast<db0::v_sorted_vector<item_t, T...>*>(this_ptr);
             auto it = index.find(item);
             // erase item if exists
-            if (it) {
+            if (it != index.end()) {
                 index.eraseItem(it);
             }
         }
diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index fe323d4..bf0f2c1 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -326,10 +326,11 @@ namespace db0
 		}
 		
 		/**
-		 * @return true if the underlying type (and address) has changed
+		 * @return true if either the underlying type or address has changed
 		 */		
 		bool insert(const item_t &item)
         {
+            auto old_address = getAddress();
             bindex::type type = getIndexType();
             bindex::type type_after_insertion = getIndexTypeAfterInsertion(1u);
             /// only morph when upgrade is necessary, do not degrade type when inserting
@@ -360,7 +361,8 @@ namespace db0
                 }
             }
             m_interface.insert(item);
-			return result;
+			// NOTE: address of a variable length collection may change on insert (without changing its type)
+			return result || getAddress() != old_address;
 		}
 		
 		/**
diff --git a/src/dbzero/core/collections/vector/v_sorted_vector.hpp b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
index 9515d0e..a264e8f 100644
--- a/src/dbzero/core/collections/vector/v_sorted_vector.hpp
+++ b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
@@ -872,7 +872,8 @@ DB0_PACKED_END
         bool updateExisting(const data_t &data, data_t *old_data = nullptr)
         {
             auto it = (*this)->find(data);
-            if (it == (*this)->end()) {
+            // NOTE: container's find returns null if not found
+            if (!it) {
                 return false;
             }
             
@@ -888,7 +889,8 @@ DB0_PACKED_END
         bool findOne(data_t &data) const
         {
             auto it = (*this)->find(data);
-            if (it == (*this)->end()) {
+            // NOTE: container's find returns null if not found
+            if (!it) {
                 return false;
             }
 
-- 
2.43.0


From de242261f0fd18dc58253e14ecc4a47e24a1d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 39/42] fix: storage of dict / set buckets and of the attribute
 index is released

---
 src/dbzero/object_model/dict/Dict.cpp     | 2 ++
 src/dbzero/object_model/object/Object.cpp | 4 ++++
 src/dbzero/object_model/set/Set.cpp       | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index c3e4296..b37443d 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -321,6 +321,8 @@ namespace db0::object_model
                 auto [storage_class_2, value_2] = (*it).m_second;
                 unrefMember<LangToolkit>(fixture, storage_class_2, value_2);
             }
+            // NOTE: m_index does not own storage of the buckets
+            bindex.destroy();
         }
     }
     
diff --git a/src/dbzero/object_model/object/Object.cpp b/src/dbzero/object_model/object/Object.cpp
index 0d8c914..14bdd47 100644
--- a/src/dbzero/object_model/object/Object.cpp
+++ b/src/dbzero/object_model/object/Object.cpp
@@ -382,6 +382,10 @@ namespace db0::object_model
                 unrefMember(fixture, *it);
                 class_ref.removeFromSchema(*it);
             }
+            // NOTE: the kv-index is owned by the object being destroyed
+            it = {};
+            kv_index_ptr->destroy();
+            m_kv_index = nullptr;
         }
     }
     
diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index e134dd7..fff7bd1 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -335,6 +335,8 @@ namespace db0::object_model
                 unrefMember<LangToolkit>(fixture, storage_class, value);
                 ++it;
             }
+            // NOTE: m_index does not own storage of the buckets
+            bindex.destroy();
         }
     }
 
-- 
2.43.0


From ea25fb322ca34eecb3aedcf0daa4eae359aa57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 40/42] fix: iterators of lists, sets and dictionaries keep
 their position when the collection changes

---
 src/dbzero/object_model/dict/DictIterator.cpp   | 2 +-
 src/dbzero/object_model/list/List.cpp           | 1 +
 src/dbzero/object_model/set/SetIterator.cpp     | 4 +++-
 src/dbzero/object_model/set/WeakSetIterator.cpp | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/object_model/dict/DictIterator.cpp b/src/dbzero/object_model/dict/DictIterator.cpp
index c8ddeb9..6968175 100644
--- a/src/dbzero/object_model/dict/DictIterator.cpp
+++ b/src/dbzero/object_model/dict/DictIterator.cpp
@@ -121,7 +121,7 @@ namespace db0::object_model
         auto fixture = m_collection->getFixture();
         m_index = address.getIndex(m_collection->getMemspace());
         m_join_iterator = m_index.beginJoin(1);
-        if (m_join_iterator.join(m_current_key)) {
+        if (m_join_iterator.join(m_current_key, 1)) {
             m_current_key = *m_join_iterator;
         } else {
             ++m_iterator;
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index 3a43cc3..3e49bb0 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -115,6 +115,7 @@ namespace db0::object_model
         else {
             // del operator used
             this->erase(i);
+            restoreIterators();
         }
         unrefMember<LangToolkit>(*fixture, storage_class_value, value);
     }
diff --git a/src/dbzero/object_model/set/SetIterator.cpp b/src/dbzero/object_model/set/SetIterator.cpp
index 73cc4ae..2de77bf 100644
--- a/src/dbzero/object_model/set/SetIterator.cpp
+++ b/src/dbzero/object_model/set/SetIterator.cpp
@@ -43,6 +43,8 @@ namespace db0::object_model
         if (m_join_iterator.is_end()) {
             ++m_iterator;
             setJoinIterator();
+        } else {
+            m_current_key = *m_join_iterator;
         }
         return member;
     }
@@ -65,7 +67,7 @@ namespace db0::object_model
         auto fixture = m_collection->getFixture();
         m_index = address.getIndex(m_collection->getMemspace());
         m_join_iterator = m_index.beginJoin(1);
-        if (m_join_iterator.join(m_current_key)) {
+        if (m_join_iterator.join(m_current_key, 1)) {
             m_current_key = *m_join_iterator;
         } else {
             ++m_iterator;
diff --git a/src/dbzero/object_model/set/WeakSetIterator.cpp b/src/dbzero/object_model/set/WeakSetIterator.cpp
index 5712cb6..6079e04 100644
--- a/src/dbzero/object_model/set/WeakSetIterator.cpp
+++ b/src/dbzero/object_model/set/WeakSetIterator.cpp
@@ -85,7 +85,7 @@ namespace db0::object_model
         m_current_hash = key;
         m_index = address.getIndex(m_collection->getMemspace());
         m_join_iterator = m_index.beginJoin(1);
-        if (m_join_iterator.join(m_current_key)) {
+        if (m_join_iterator.join(m_current_key, 1)) {
             m_current_key = *m_join_iterator;
         } else {
             ++m_iterator;
-- 
2.43.0


From 2149889045779e6dbc2b953a8ba20e5955fa3804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 41/42] fix: a prefix opened while waiting for its lock used
 the file size from before (file was destroyed)

---
 src/dbzero/core/storage/CFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/core/storage/CFile.cpp b/src/dbzero/core/storage/CFile.cpp
index 4781de9..31322de 100644
--- a/src/dbzero/core/storage/CFile.cpp
+++ b/src/dbzero/core/storage/CFile.cpp
@@ -85,6 +85,8 @@ namespace db0
         if (access_type == AccessType::READ_WRITE && lock_flags.m_no_lock == false) {
             std::string lock_path = m_path + ".lock";
             m_lock = std::make_unique<InterProcessLock>(lock_path.c_str(), lock_flags);
+            // NOTE: the file may have been extended by its former owner while waiting for the lock
+            m_file_size = getFileSize(m_file, m_file_pos);
         }
     }
     
-- 
2.43.0


From ae544d2ff418e0e16f5aa2a3b16f62cc4d89a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 42/42] fix: an error raised by the file lock aborted the
 process or left the prefix opened unlocked

---
 src/dbzero/core/utils/InterProcessLock.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbzero/core/utils/InterProcessLock.cpp b/src/dbzero/core/utils/InterProcessLock.cpp
index 4602ff3..8a6000e 100644
--- a/src/dbzero/core/utils/InterProcessLock.cpp
+++ b/src/dbzero/core/utils/InterProcessLock.cpp
@@ -86,6 +86,11 @@ namespace db0
 
         auto args = Py_OWN(Py_BuildValue("()"));
         auto result = Py_OWN(PyObject_Call(*aquire, *args, *keywords));        
+        if (!result) {
+            // do not report the Python error, the exception below is raised instead
+            PyErr_Clear();
+            THROWF(db0::InternalException) << "Failed to aquire lock of: " << m_lockPath;
+        }
         if (!PyLong_AsLong(*result)) {
             THROWF(db0::InternalException) << "Failed to aquire lock of: " << m_lockPath;
         }
-- 
2.43.0

