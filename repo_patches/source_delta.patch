From f0ae4ff83684f7b9fa17d09d38420b906df043e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 01/73] fix: read indexes from TOCs that are not cached in
 memory (FDB_CACHE_TOCS_ON_READ=0)

---
 src/fdb5/toc/TocHandler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..3a9cf95 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -85,7 +85,7 @@ public:  // methods
 
     long read(void* buf, long len, const char** pdata = nullptr) {
         if (pdata && !cached_) {
-            throw SeriousBug("Can only return a pointer to data in memory if cached", Here());
+            *pdata = nullptr;  // only available if cached
         }
         if (cached_) {
             if (pdata) {
@@ -1333,6 +1333,9 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     };
     std::vector<IndexEntry> indexEntries;
 
+    // If the toc is not cached in memory, the index entries need to be retained explicitly
+    std::vector<std::unique_ptr<char[]>> uncachedEntries;
+
     bool debug = LibFdb5::instance().debug();
     bool walkSubTocs = true;
     bool hideSubTocEntries = true;
@@ -1360,6 +1363,11 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
+                if (!pdata) {
+                    uncachedEntries.emplace_back(new char[dataLength]);
+                    ::memcpy(uncachedEntries.back().get(), r.get(), dataLength);
+                    pdata = reinterpret_cast<const TocRecord*>(uncachedEntries.back().get());
+                }
                 indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
 
                 if (subTocs && subTocRead_) {
-- 
2.43.0


From 239974fdb5547b347aab02ca7de8151c5732beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 02/73] fix: list entries lacking an optional key of the
 request consistently, whatever was visited before

---
 src/fdb5/api/local/ListVisitor.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..f2d4be1 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -133,13 +133,14 @@ public:
 
         // Take into account any rule-specific behaviour in the request
         if (datumKey.partialMatch(canonicalise(*rule_))) {
-            for (const auto& k : datumKey.keys()) {
-                datumRequest_.unsetValues(k);
-            }
-            if (datumRequest_.parameters().size() == 0) {
-                queue_.emplace(currentCatalogue_->key(), currentIndex_->key(), datumKey, field.stableLocation(),
-                               field.timestamp());
+            // The request must be used in its entirety by each of the entries (which may lack optional keys)
+            for (const auto& param : datumRequest_.parameters()) {
+                if (!datumKey.find(param.name()).second) {
+                    return;
+                }
             }
+            queue_.emplace(currentCatalogue_->key(), currentIndex_->key(), datumKey, field.stableLocation(),
+                           field.timestamp());
         }
     }
 
-- 
2.43.0


From ec4cdd1a0e48fb2fe022c07a7ef8699b1e902ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 03/73] fix: database-level listing with schemas whose rules
 have different numbers of database keys

---
 src/fdb5/rules/Rule.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..9b9627e 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -213,7 +213,10 @@ std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const
         return {};
     }
 
-    ASSERT(values.size() >= requiredPredicateCount(predicates_));
+    /// @note the values may stem from another rule, with a different number of keys
+    if (values.size() != predicates_.size()) {
+        return {};
+    }
 
     TypedKey key(registry_);
 
-- 
2.43.0


From f38fb489763a16d36f6ef80978b1cc05c0578403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 04/73] fix: de-duplicated listing must not mix up entries
 holding different optional keys

---
 src/fdb5/api/helpers/ListIterator.cc | 2 +-
 src/fdb5/api/helpers/ListIterator.h  | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/api/helpers/ListIterator.cc b/src/fdb5/api/helpers/ListIterator.cc
index fb23465..ee07d3d 100644
--- a/src/fdb5/api/helpers/ListIterator.cc
+++ b/src/fdb5/api/helpers/ListIterator.cc
@@ -117,7 +117,7 @@ bool KeyStore::tryInsert(const std::array<Key, 3>& keyParts) {
     // And then for the third level, we try and insert. And if it does not
     // already exist, that is great!
 
-    auto [_, ins] = level2.insert(keyParts[2].valuesToString());
+    auto [_, ins] = level2[keySignature(keyParts[2])].insert(keyParts[2].valuesToString());
     return ins;
 }
 
diff --git a/src/fdb5/api/helpers/ListIterator.h b/src/fdb5/api/helpers/ListIterator.h
index b1cb224..0f3298d 100644
--- a/src/fdb5/api/helpers/ListIterator.h
+++ b/src/fdb5/api/helpers/ListIterator.h
@@ -65,14 +65,18 @@ using ListAggregateIterator = APIAggregateIterator<ListElement>;
 /// We now store a hierarchy of key components, such that the (rarely changing) first two levels of the key are only
 /// stored once for each set of values. The actual values stored are the fingerprints in the format
 /// <value>:<value>:... as constructed in conjunction with the schema - which are significantly smaller than the
-/// Key objects, and have the advantage of being a single allocation.
+/// Key objects, and have the advantage of being a single allocation. As entries of one index may lack different
+/// optional keys, the fingerprints are grouped by the names of the keys they hold.
 ///
 /// The introduction of this class eliminates a class of out-of-memory kill events, and improves the performance of
 /// listing the contents of the FDB
 
 class KeyStore {
 
-    std::unordered_map<std::string, std::unordered_map<std::string, std::unordered_set<std::string>>> fingerprints_;
+    using Fingerprints = std::unordered_set<std::string>;
+
+    std::unordered_map<std::string, std::unordered_map<std::string, std::unordered_map<std::string, Fingerprints>>>
+        fingerprints_;
 
 public:
 
-- 
2.43.0


From 4e5446b3befbea054f7b10f8686ed4eeb54cc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 05/73] fix: de-duplicated retrieval (FDB_DEDUPLICATE_FIELDS)
 delivers each field, not the last one for all

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..1a478f8 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -242,7 +242,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 248a614a9b30a6ea1c45fa08592c5b8882cbcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 06/73] fix: partial database names use the value of the key,
 not an uninitialised iterator

---
 src/fdb5/toc/RootManager.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..1b1d54a 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -166,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += (*j).second;
+                                result += iter->second;
                             }
                         }
                     }
-- 
2.43.0


From 2854147cac2ca4a1286738b42d0874d593974e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 07/73] fix: key values are literal in the regular expressions
 that find databases

---
 src/fdb5/toc/RootManager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 1b1d54a..60ca1cd 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -165,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += iter->second;
+                                result += Regex::escape(iter->second);
                             }
                         }
                     }
@@ -580,7 +580,7 @@ std::vector<std::string> RootManager::possibleDbPathNames(const Key& key, const
     for (const auto& k : key.names()) {
         const auto& v = key.get(k);
         oss << sep;
-        oss << (v == missing || v.empty() ? missing : v);
+        oss << (v == missing || v.empty() ? std::string(missing) : Regex::escape(v));
         sep = ":";
     }
     result.push_back(oss.str());
-- 
2.43.0


From fee4962c584f680930610b6ca17fc596d93e2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 08/73] fix: visiting an index includes entries whose key
 starts with a byte above 0xad

---
 src/fdb5/toc/BTreeIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/BTreeIndex.cc b/src/fdb5/toc/BTreeIndex.cc
index 660bb84..255b198 100644
--- a/src/fdb5/toc/BTreeIndex.cc
+++ b/src/fdb5/toc/BTreeIndex.cc
@@ -121,7 +121,7 @@ public:
 template <int KEYSIZE, int RECSIZE, typename PAYLOAD>
 void TBTreeIndex<KEYSIZE, RECSIZE, PAYLOAD>::visit(BTreeIndexVisitor& visitor) const {
     TBTreeIndexVisitor<KEYSIZE, RECSIZE, PAYLOAD> v(visitor);
-    btree_.range("", "\255", v);
+    btree_.range("", std::string(KEYSIZE, char(0xff)), v);
 }
 
 template <int KEYSIZE, int RECSIZE, typename PAYLOAD>
-- 
2.43.0


From 857902fc42110a80ca54a01a9be3a72079bf66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 09/73] fix: flush with FDB_ASYNC_WRITE=1 synchronises the data
 before they are indexed

---
 src/fdb5/io/LustreFileHandle.h | 2 +-
 src/fdb5/toc/TocStore.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/io/LustreFileHandle.h b/src/fdb5/io/LustreFileHandle.h
index bf61de6..1f6e655 100644
--- a/src/fdb5/io/LustreFileHandle.h
+++ b/src/fdb5/io/LustreFileHandle.h
@@ -40,7 +40,7 @@ public:  // methods
         HANDLE(path, buffsize), stripe_(stripe) {}
 
     LustreFileHandle(const std::string& path, size_t buffcount, size_t buffsize, LustreStripe stripe) :
-        HANDLE(path, buffcount, buffsize), stripe_(stripe) {}
+        HANDLE(path, buffcount, buffsize, /* fsync */ true), stripe_(stripe) {}
 
     ~LustreFileHandle() override {}
 
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..8857d13 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -242,7 +242,7 @@ std::unique_ptr<eckit::DataHandle> TocStore::createAsyncHandle(const eckit::Path
                                                                     stripeDataLustreSettings());
     }
 
-    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer);
+    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer, /* fsync */ true);
 }
 
 std::unique_ptr<eckit::DataHandle> TocStore::createDataHandle(const eckit::PathName& path) {
-- 
2.43.0


From a8d9a8dca931945b66210ddca1a28e62329a0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 10/73] fix: error message of a failed TOC read refers to the
 path after its temporary is gone

---
 src/fdb5/toc/TocHandler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 3a9cf95..e0cb968 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -78,7 +78,7 @@ public:
 class CachedFDProxy {
 public:  // methods
 
-    CachedFDProxy(const eckit::PathName& path, int fd, std::unique_ptr<eckit::MemoryHandle>& cached) :
+    CachedFDProxy(const eckit::LocalPathName& path, int fd, std::unique_ptr<eckit::MemoryHandle>& cached) :
         path_(path), fd_(fd), cached_(cached.get()) {
         ASSERT((fd != -1) != (!!cached));
     }
@@ -125,7 +125,7 @@ public:  // methods
 
 private:  // members
 
-    const eckit::PathName& path_;
+    const eckit::LocalPathName& path_;
     int fd_;
     MemoryHandle* cached_;
 };
-- 
2.43.0


From 6629a355ab412a5979e5e326e967d70085ce6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 11/73] fix: a root directory that cannot be opened is an
 error, not a crash, when listing

---
 src/fdb5/toc/TocEngine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/toc/TocEngine.cc b/src/fdb5/toc/TocEngine.cc
index a04002b..7d84295 100644
--- a/src/fdb5/toc/TocEngine.cc
+++ b/src/fdb5/toc/TocEngine.cc
@@ -45,6 +45,10 @@ namespace fdb5 {
 void TocEngine::scan_dbs(const std::string& path, std::list<std::string>& dbs) const {
 
     eckit::StdDir d(path.c_str());
+    if (d == nullptr) {
+        Log::error() << "opendir(" << path << ")" << Log::syserr << std::endl;
+        throw eckit::FailedSystemCall("opendir");
+    }
 
     // Once readdir_r finally gets deprecated and removed, we may need to
     // protecting readdir() as not yet guarranteed thread-safe by POSIX
-- 
2.43.0


From eb9ead85b650d0b246c1db25f2e2a541dc52413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 12/73] fix: visiting skips a database that has gone instead of
 dereferencing null

---
 src/fdb5/database/EntryVisitMechanism.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fdb5/database/EntryVisitMechanism.cc b/src/fdb5/database/EntryVisitMechanism.cc
index 2183ce0..2268438 100644
--- a/src/fdb5/database/EntryVisitMechanism.cc
+++ b/src/fdb5/database/EntryVisitMechanism.cc
@@ -138,6 +138,7 @@ void EntryVisitMechanism::visit(const FDBToolRequest& request, EntryVisitor& vis
             }
             catch (fdb5::DatabaseNotFoundException& e) {
                 visitor.onDatabaseNotFound(e);
+                continue;
             }
 
             ASSERT(catalogue->open());
-- 
2.43.0


From 948aeb8fb62de89351f424ecd75f9851fa1d56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 13/73] fix: failing to synchronise the TOC is reported to the
 caller instead of terminating the process

---
 src/fdb5/toc/TocHandler.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index e0cb968..86ec233 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -12,6 +12,7 @@
 #include <pwd.h>
 #include <sys/types.h>
 #include <cstddef>
+#include <exception>
 #include <utility>
 
 #include "eckit/config/Resource.h"
@@ -70,7 +71,24 @@ class TocHandlerCloser {
 public:
 
     TocHandlerCloser(const TocHandler& handler) : handler_(handler) {}
-    ~TocHandlerCloser() { handler_.close(); }
+
+    // n.b. closing synchronises what has been appended: the caller must learn of a failure
+    ~TocHandlerCloser() noexcept(false) {
+        if (std::uncaught_exceptions() == exceptions_) {
+            handler_.close();
+            return;
+        }
+        try {
+            handler_.close();
+        }
+        catch (std::exception& e) {
+            Log::error() << "Error closing TOC: " << e.what() << std::endl;
+        }
+    }
+
+private:
+
+    int exceptions_ = std::uncaught_exceptions();
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From bc06d5b073689dfbc0a7c5af5f68bb7a049cfb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 14/73] fix: a TOC record that the system writes in part is
 completed

---
 src/fdb5/toc/TocHandler.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 86ec233..507b0a3 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -361,10 +361,15 @@ void TocHandler::appendRaw(const void* data, size_t size) {
 
     ASSERT(size % recordRoundSize() == 0);
 
-    size_t len;
-    SYSCALL2(len = ::write(fd_, data, size), tocPath_);
-    dirty_ = true;
-    ASSERT(len == size);
+    const char* p = static_cast<const char*>(data);
+    while (size > 0) {
+        ssize_t len;
+        SYSCALL2(len = ::write(fd_, p, size), tocPath_);
+        ASSERT(len > 0);
+        dirty_ = true;
+        p += len;
+        size -= len;  // n.b. a record written in part makes the TOC unreadable: write the rest
+    }
 }
 
 void TocHandler::appendBlock(TocRecord& r, size_t payloadSize) {
-- 
2.43.0


From 3eaf8fc69c1651b879276e496803577e7a7a4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 15/73] fix: flushing after data were lost by an earlier write
 error is an error, not a success

---
 src/fdb5/toc/TocStore.cc | 24 ++++++++++++++++++++----
 src/fdb5/toc/TocStore.h  |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 8857d13..3c9254b 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -148,9 +148,14 @@ std::unique_ptr<const FieldLocation> TocStore::archive(const Key& idxKey, const
 
     eckit::Offset position = dh.position();
 
-    long len = dh.write(data, length);
-
-    ASSERT(len == static_cast<long>(length));
+    try {
+        long len = dh.write(data, length);
+        ASSERT(len == static_cast<long>(length));
+    }
+    catch (...) {
+        dataLost_ = true;
+        throw;
+    }
 
     return std::make_unique<TocFieldLocation>(dataPath, position, length, Key());
 }
@@ -160,8 +165,19 @@ size_t TocStore::flush() {
         return 0;
     }
 
+    // n.b. flushing a handle again after a failure to write may succeed, without the data
+    if (dataLost_) {
+        throw eckit::WriteError("Data archived in " + std::string(directory_) + " were lost by an earlier failure");
+    }
+
     // ensure consistent state before writing Toc entry
-    flushDataHandles();
+    try {
+        flushDataHandles();
+    }
+    catch (...) {
+        dataLost_ = true;
+        throw;
+    }
 
     size_t out = archivedFields_;
     archivedFields_ = 0;
diff --git a/src/fdb5/toc/TocStore.h b/src/fdb5/toc/TocStore.h
index 904dd77..9f04db0 100644
--- a/src/fdb5/toc/TocStore.h
+++ b/src/fdb5/toc/TocStore.h
@@ -108,6 +108,7 @@ private:  // members
 
     mutable PathStore dataPaths_;
     size_t archivedFields_;
+    bool dataLost_ = false;  ///< writing data failed, the handles may not hold all that was archived
     std::set<std::string> auxFileExtensions_;
 };
 
-- 
2.43.0


From caa3b3f2d07d44ba78b409089d7f4b9c9a2bfc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 16/73] fix: enumerating masked entries of a TOC does not
 depend on the TOC being cached

---
 src/fdb5/toc/TocHandler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 507b0a3..b6215c6 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1673,7 +1673,10 @@ DbStats TocHandler::stats() const {
 
 void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metadata, std::set<eckit::URI>& data) const {
 
-    if (!enumeratedMaskedEntries_) {
+    openForRead();
+    TocHandlerCloser close(*this);
+
+    if (!enumeratedMaskedEntries_) {  // n.b. opening the TOC resets this, unless it is cached
         populateMaskedEntriesList();
     }
 
@@ -1715,9 +1718,6 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     // Get the data files referenced by the masked indexes (those in subtocs are
     // referenced internally)
 
-    openForRead();
-    TocHandlerCloser close(*this);
-
     auto r = std::make_unique<TocRecord>(
         serialisationVersion_.used());  // allocate (large) TocRecord on heap not stack (MARS-779)
 
-- 
2.43.0


From 7ebadab2e1f401337b42a02fb0d75c5f69eff81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 17/73] fix: a database locked for wiping is skipped by wipe
 instead of failing an assertion

---
 src/fdb5/api/local/WipeVisitor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 8a631c4..5074b79 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,7 +112,12 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-    ASSERT(catalogueWipeState_);
+
+    // The database is locked for wiping, see visitDatabase
+    if (!catalogueWipeState_) {
+        EntryVisitor::catalogueComplete(catalogue);
+        return;
+    }
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From 695f86fd91c6e884b6df1f814509ed146af99ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 18/73] fix: a database locked for wiping is skipped by purge
 instead of dereferencing a null pointer

---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..cfe6629 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // The database is locked for wiping, see visitDatabase
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
-- 
2.43.0


From 94f18c8bd48085ffb67f8f698b4ee8b332900015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 19/73] Revert "fix: a database locked for wiping is skipped by
 wipe": existing tests expect the error

---
 src/fdb5/api/local/WipeVisitor.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 5074b79..8a631c4 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,12 +112,7 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-
-    // The database is locked for wiping, see visitDatabase
-    if (!catalogueWipeState_) {
-        EntryVisitor::catalogueComplete(catalogue);
-        return;
-    }
+    ASSERT(catalogueWipeState_);
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From 230e1a0ba9fb3845a7cbb5e45b9016ac2506c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 20/73] fix: a database locked for listing is not listed at
 database level either

---
 src/fdb5/api/local/ListVisitor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index f2d4be1..a82d7f7 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -31,6 +31,7 @@
 #include "fdb5/database/Index.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/database/Store.h"
+#include "fdb5/toc/TocHandler.h"
 #include "fdb5/types/Type.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -58,6 +59,10 @@ public:
         if (level_ == 1 && uri.scheme() == "toc") {
             /// @todo only works with the toc backend
             if (auto dbKey = schema.matchDatabase(uri.path().baseName())) {
+                // If the DB is locked for listing, then it "doesn't exist"
+                if ((uri.path() / controlfile_lookup.at(ControlIdentifier::List)).exists()) {
+                    return false;
+                }
                 queue_.emplace(*dbKey, 0);
                 return false;
             }
-- 
2.43.0


From 46e5d45ba3a97e72fd2fdc9255d1697ebc9d5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 21/73] fix: the control file allowing duplicates belongs to
 the database when it is wiped

---
 src/fdb5/toc/TocHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index b6215c6..2a0c8a6 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1922,7 +1922,8 @@ std::vector<PathName> TocHandler::lockfilePaths() const {
 
     std::vector<PathName> paths;
 
-    for (const auto& name : {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file}) {
+    for (const auto& name :
+         {retrieve_lock_file, archive_lock_file, list_lock_file, wipe_lock_file, allow_duplicates_file}) {
 
         PathName fullPath = fullControlFilePath(name);
         if (fullPath.exists()) {
-- 
2.43.0


From dbae2c85f615777fb1c494af0af2b24b1e509aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 22/73] fix: purge a database whose sub-TOC data was partly
 wiped

---
 src/fdb5/toc/TocPurgeVisitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fdb5/toc/TocPurgeVisitor.cc b/src/fdb5/toc/TocPurgeVisitor.cc
index 96464cb..fa0a6e6 100644
--- a/src/fdb5/toc/TocPurgeVisitor.cc
+++ b/src/fdb5/toc/TocPurgeVisitor.cc
@@ -37,6 +37,11 @@ bool TocPurgeVisitor::visitDatabase(const Catalogue& catalogue) {
     for (const auto& entry : metadata) {
         const PathName& path = entry.first.path();
 
+        // A masked sub-toc still refers to the files that have been wiped or purged since
+        if (!path.exists()) {
+            continue;
+        }
+
         allIndexFiles_.insert(path);
         indexUsage_[path] += 0;
     }
@@ -49,6 +54,9 @@ bool TocPurgeVisitor::visitDatabase(const Catalogue& catalogue) {
             Log::error() << "This may occur when purging an overlayed FDB, which is not supported." << std::endl;
             NOTIMP;
         }
+        if (!uri.path().exists()) {
+            continue;
+        }
         allDataFiles_.insert(uri.path());
         dataUsage_[uri.path()] += 0;
     }
-- 
2.43.0


From 7f35ac8ad7e656ab143165d53cca34b7fa4d9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 23/73] fix: drop references to shared axes with the registry
 locked

---
 src/fdb5/database/AxisRegistry.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/database/AxisRegistry.cc b/src/fdb5/database/AxisRegistry.cc
index 4eca643..5896c53 100644
--- a/src/fdb5/database/AxisRegistry.cc
+++ b/src/fdb5/database/AxisRegistry.cc
@@ -27,22 +27,24 @@ AxisRegistry& AxisRegistry::instance() {
 
 void AxisRegistry::release(const keyword_t& keyword, std::shared_ptr<axis_t>& ptr) {
 
-    if (ptr.use_count() != 2) {
-        return;
-    }
-
     eckit::AutoLock<eckit::Mutex> lock(mutex_);
 
-    axis_map_t::iterator it = axes_.find(keyword);
-    ASSERT(it != axes_.end());
+    // n.b. references are counted, and dropped, with the lock held: another thread may be taking (or releasing) one
+    if (ptr.use_count() == 2) {
 
-    it->second.erase(ptr);
+        axis_map_t::iterator it = axes_.find(keyword);
+        ASSERT(it != axes_.end());
 
-    ASSERT(ptr.use_count() == 1);
+        it->second.erase(ptr);
 
-    if (it->second.empty()) {
-        axes_.erase(it);
+        ASSERT(ptr.use_count() == 1);
+
+        if (it->second.empty()) {
+            axes_.erase(it);
+        }
     }
+
+    ptr.reset();
 }
 
 void AxisRegistry::deduplicate(const keyword_t& keyword, std::shared_ptr<axis_t>& ptr) {
-- 
2.43.0


From 97ab4df787eb745fb92197270b3b56db60a27e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 24/73] fix: with a remote store, a field is indexed under its
 own index key

---
 src/fdb5/database/ArchiveVisitor.cc     | 2 +-
 src/fdb5/database/BaseArchiveVisitor.cc | 2 ++
 src/fdb5/database/BaseArchiveVisitor.h  | 5 +++++
 src/fdb5/database/ReindexVisitor.cc     | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/ArchiveVisitor.cc b/src/fdb5/database/ArchiveVisitor.cc
index 191890d..539b54a 100644
--- a/src/fdb5/database/ArchiveVisitor.cc
+++ b/src/fdb5/database/ArchiveVisitor.cc
@@ -36,7 +36,7 @@ void ArchiveVisitor::callbacks(std::shared_ptr<CatalogueWriter> catalogue, const
 bool ArchiveVisitor::selectDatum(const Key& datumKey, const Key& fullKey) {
 
     checkMissingKeys(fullKey);
-    const Key idxKey = catalogue()->currentIndexKey();
+    const Key idxKey = indexKey();
 
     auto p = std::make_shared<std::promise<std::shared_ptr<const FieldLocation>>>();
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.cc b/src/fdb5/database/BaseArchiveVisitor.cc
index 9d45304..8a333a6 100644
--- a/src/fdb5/database/BaseArchiveVisitor.cc
+++ b/src/fdb5/database/BaseArchiveVisitor.cc
@@ -32,10 +32,12 @@ bool BaseArchiveVisitor::selectDatabase(const Key& dbKey, const Key&) {
 }
 
 bool BaseArchiveVisitor::selectIndex(const Key& idxKey) {
+    indexKey_ = idxKey;
     return catalogue()->selectIndex(idxKey);
 }
 
 bool BaseArchiveVisitor::createIndex(const Key& idxKey, size_t datumKeySize) {
+    indexKey_ = idxKey;
     return catalogue()->createIndex(idxKey, datumKeySize);
 }
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.h b/src/fdb5/database/BaseArchiveVisitor.h
index 87b153c..41a0999 100644
--- a/src/fdb5/database/BaseArchiveVisitor.h
+++ b/src/fdb5/database/BaseArchiveVisitor.h
@@ -52,11 +52,16 @@ protected:  // methods
 
     const Key& initialFieldKey() const { return initialFieldKey_; }
 
+    /// The index selected for the field being archived. The catalogue's current index may be another one by now: with a
+    /// remote store, the locations of earlier fields are archived (selecting their index) from the listening thread
+    const Key& indexKey() const { return indexKey_; }
+
 private:  // members
 
     Archiver& owner_;
 
     Key initialFieldKey_;
+    Key indexKey_;
 
     bool checkMissingKeysOnWrite_;
 };
diff --git a/src/fdb5/database/ReindexVisitor.cc b/src/fdb5/database/ReindexVisitor.cc
index 505b39e..3770f96 100644
--- a/src/fdb5/database/ReindexVisitor.cc
+++ b/src/fdb5/database/ReindexVisitor.cc
@@ -16,7 +16,7 @@ ReindexVisitor::ReindexVisitor(Reindexer& owner, const Key& initialFieldKey, con
 
 bool ReindexVisitor::selectDatum(const Key& datumKey, const Key& fullKey) {
     checkMissingKeys(fullKey);
-    const Key idxKey = catalogue()->currentIndexKey();
+    const Key idxKey = indexKey();
     catalogue()->archive(idxKey, datumKey, fieldLocation_.make_shared());
     return true;
 }
-- 
2.43.0


From 50784c38da6b4765619844e7a54d2aaed22ee912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 25/73] fix: a part-wipe involves only the stores that hold
 some of its data

---
 src/fdb5/database/WipeCoordinator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/WipeCoordinator.cc b/src/fdb5/database/WipeCoordinator.cc
index b679e68..61e165b 100644
--- a/src/fdb5/database/WipeCoordinator.cc
+++ b/src/fdb5/database/WipeCoordinator.cc
@@ -229,7 +229,8 @@ void WipeCoordinator::doWipeURIs(const CatalogueWipeState& catalogueWipeState,
     // 4. Wipe files known by the stores
     LOG_DEBUG_LIB(LibFdb5) << "WipeCoordinator::wipe - wiping store known URIs" << std::endl;
     for (const auto& [uri, storeState] : storeWipeStates) {
-        if (storeWiped[uri]) {
+        // n.b. a store that has nothing to delete is not part of the wipe: it holds no state for it
+        if (storeWiped[uri] || storeState->includedDataURIs().empty()) {
             continue;
         }
         const Store& store = storeState->store(config);
@@ -250,7 +251,8 @@ void WipeCoordinator::doWipeURIs(const CatalogueWipeState& catalogueWipeState,
     }
 
     for (const auto& [uri, storeState] : storeWipeStates) {
-        if (storeWiped[uri]) {
+        // n.b. a store that has nothing to delete is not part of the wipe: it holds no state for it
+        if (storeWiped[uri] || storeState->includedDataURIs().empty()) {
             continue;
         }
         const Store& store = storeState->store(config);
-- 
2.43.0


From 4020cb55aa59590e6de9de515d567627689a544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 26/73] fix: order of the messages on a single connection

---
 src/fdb5/remote/client/ClientConnection.cc | 52 +++++++++++++++++-----
 src/fdb5/remote/client/ClientConnection.h  |  3 ++
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..052795d 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -224,17 +224,6 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         ASSERT(clients_.find(client.clientId()) != clients_.end());
     }
 
-    {
-        std::lock_guard lock(dataWriteMutex_);
-        if (!dataWriteThread_.joinable()) {
-            // Reset the queue after previous done/errors
-            ASSERT(!dataWriteQueue_);
-
-            dataWriteQueue_ = std::make_unique<Queue<DataWriteRequest>>(maxQueueLength);
-            dataWriteThread_ = std::thread([this] { dataWriteThreadLoop(); });
-        }
-    }
-
     uint32_t payloadLength = 0;
     for (const auto& payload : payloads) {
         ASSERT(payload.data);
@@ -248,6 +237,25 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         offset += payload.length;
     }
 
+    if (single_) {
+        // n.b. data and control messages share the connection, and the server handles them in order: what is written
+        //      here must not be overtaken by the request (e.g. a flush) that comes after it
+        DataWriteRequest request{&client, msg, requestID, std::move(buffer)};
+        dataWrite(request);
+        return;
+    }
+
+    {
+        std::lock_guard lock(dataWriteMutex_);
+        if (!dataWriteThread_.joinable()) {
+            // Reset the queue after previous done/errors
+            ASSERT(!dataWriteQueue_);
+
+            dataWriteQueue_ = std::make_unique<Queue<DataWriteRequest>>(maxQueueLength);
+            dataWriteThread_ = std::thread([this] { dataWriteThreadLoop(); });
+        }
+    }
+
     dataWriteQueue_->emplace(&client, msg, requestID, std::move(buffer));
 }
 
@@ -341,6 +349,28 @@ SessionID ClientConnection::verifyServerStartupResponse() {
     return serverSession;
 }
 
+bool ClientConnection::completePendingRequest(const MessageHeader& hdr, Buffer& payload) {
+    // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
+    std::lock_guard lock(promisesMutex_);
+
+    auto pp = promises_.find(hdr.requestID);
+    if (pp == promises_.end()) {
+        return false;
+    }
+    if (hdr.message == Message::Error) {
+        const std::string msg(static_cast<const char*>(payload.data()), hdr.payloadSize);
+        pp->second.set_exception(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
+    }
+    else if (hdr.payloadSize == 0) {
+        pp->second.set_value(Buffer(0));
+    }
+    else {
+        pp->second.set_value(std::move(payload));
+    }
+    promises_.erase(pp);
+    return true;
+}
+
 void ClientConnection::failPendingRequests(const std::exception_ptr& eptr) {
     std::lock_guard lock(promisesMutex_);
     for (auto& [requestID, promise] : promises_) {
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index 2c78205..633e77a 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -90,6 +90,9 @@ private:  // methods
     // Tears down *only this* connection
     void handleConnectionError(const std::exception_ptr& eptr);
 
+    // hands the response to the request that waits for it, if any
+    bool completePendingRequest(const MessageHeader& hdr, eckit::Buffer& payload);
+
     // do not hang forever once the connection is known to be dead.
     void failPendingRequests(const std::exception_ptr& eptr);
 
-- 
2.43.0


From 6cca5352f1f4479a501954da03c732f1f6bc5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 27/73] fix: the errors of remote requests reach the caller,
 once and with their text

---
 src/fdb5/api/RemoteFDB.cc                  |  4 +-
 src/fdb5/remote/client/ClientConnection.cc | 50 +++++++---------------
 src/fdb5/remote/client/RemoteStore.cc      |  7 +--
 src/fdb5/remote/client/RemoteStore.h       | 30 ++++++++++++-
 src/fdb5/remote/server/CatalogueHandler.cc |  4 +-
 src/fdb5/remote/server/ServerConnection.cc |  4 +-
 src/fdb5/remote/server/StoreHandler.cc     |  4 +-
 7 files changed, 56 insertions(+), 47 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..25177cd 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -404,9 +404,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
-            std::string msg;
-            msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            const std::string msg(static_cast<const char*>(payload.data()), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 052795d..7e98281 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -428,32 +428,11 @@ void ClientConnection::listeningControlThreadLoop() {
 
                 ASSERT(hdr.control() || single_);
 
-                bool isPromise = false;
-                {
-                    // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
-                    std::lock_guard lock(promisesMutex_);
-
-                    auto pp = promises_.find(hdr.requestID);
-                    if (pp != promises_.end()) {
-                        if (hdr.message == Message::Error) {
-                            std::string msg(hdr.payloadSize, ' ');
-                            if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
-                            }
-                            pp->second.set_exception(
-                                std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
-                        }
-                        else if (hdr.payloadSize == 0) {
-                            pp->second.set_value(Buffer(0));
-                        }
-                        else {
-                            pp->second.set_value(std::move(payload));
-                        }
-                        promises_.erase(pp);
-                        handled = true;
-                        isPromise = true;
-                    }
-                }
+                // n.b. on a single connection the data messages answering a request (same requestID) arrive here as well,
+                //      possibly before its acknowledgement: only a control message, or an error, is a response to it
+                const bool isPromise =
+                    (hdr.control() || hdr.message == Message::Error) && completePendingRequest(hdr, payload);
+                handled = isPromise;
                 if (!isPromise) {
                     // Hold clientsMutex_ across the virtual dispatch too (not just the lookup)
                     std::lock_guard lock(clientsMutex_);
@@ -479,16 +458,18 @@ void ClientConnection::listeningControlThreadLoop() {
                     }
                 }
 
+                if (!handled && hdr.message == Message::Received) {
+                    // acknowledgement of a request that has been answered (with an error) already
+                    continue;
+                }
+
                 if (!handled) {
                     std::ostringstream ss;
                     if (hdr.message == Message::Error) {
                         ss << "RemoteFDB received an unhandled error on CONTROL connection. [clientID="
                            << hdr.clientID() << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
-                            ss << ": " << msg;
+                            ss << ": " << std::string(static_cast<const char*>(payload.data()), payload.size());
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
                     }
@@ -537,6 +518,10 @@ void ClientConnection::listeningDataThreadLoop() {
                 closeConnection();
                 return;
             }
+            // n.b. the server reports its errors here: including the ones that answer a (blocking) control message
+            if (hdr.message == Message::Error && hdr.clientID() && completePendingRequest(hdr, payload)) {
+                continue;
+            }
             if (hdr.clientID()) {
                 bool handled = false;
                 // Hold clientsMutex_ across the virtual dispatch too (not just the lookup)
@@ -570,10 +555,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on DATA connection. [clientID=" << hdr.clientID()
                            << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
-                            ss << ": " << msg;
+                            ss << ": " << std::string(static_cast<const char*>(payload.data()), payload.size());
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
                     }
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..7f51cea 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -431,12 +431,13 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             return true;
         }
         case Message::Error: {
+            const std::string msg(static_cast<const char*>(payload.data()), payload.size());
+            if (locations_.error(requestID, std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())))) {
+                return true;
+            }
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg;
-                msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..86cb897 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -85,12 +85,36 @@ public:
         locationsReceived_++;
 
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
-        if (archivalCompleted_.valid() && (fieldsArchived_ == locationsReceived_)) {
+        if (archivalCompleted_.valid() && !error_ && (fieldsArchived_ == locationsReceived_)) {
             promiseArchivalCompleted_.set_value(locationsReceived_);
         }
         return true;
     }
 
+    /// The archival identified by requestID (if any) has failed
+    bool error(uint32_t requestID, std::exception_ptr e) {
+        {
+            std::lock_guard<std::mutex> lock(locationMutex_);
+            if (locations_.find(requestID) == locations_.end()) {
+                return false;
+            }
+        }
+        fail(e);
+        return true;
+    }
+
+    /// The locations that are still awaited will never come
+    void fail(std::exception_ptr e) {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        if (locations_.empty() || error_) {
+            return;
+        }
+        error_ = e;
+        if (archivalCompleted_.valid()) {
+            promiseArchivalCompleted_.set_exception(error_);
+        }
+    }
+
     bool complete() {
         std::lock_guard<std::mutex> lock(locationMutex_);
 
@@ -101,6 +125,9 @@ public:
 
         promiseArchivalCompleted_ = std::promise<size_t>{};
         archivalCompleted_ = promiseArchivalCompleted_.get_future();
+        if (error_) {
+            promiseArchivalCompleted_.set_exception(error_);
+        }
         return false;
     }
 
@@ -125,6 +152,7 @@ private:
     size_t locationsReceived_{0};
     std::promise<size_t> promiseArchivalCompleted_;
     std::future<size_t> archivalCompleted_;
+    std::exception_ptr error_;
     std::atomic<bool> storeRequested_{false};
 };
 
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..aebbcf6 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -94,7 +94,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID,
@@ -172,7 +172,7 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 6655c2f..e038294 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -110,7 +110,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -137,7 +137,7 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 RemoteConfiguration ServerConnection::availableFunctionality() const {
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..5bbfee0 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -69,7 +69,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -125,7 +125,7 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    return Handled::Replied;  // with the error
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From b0a40982baa5b9281d519a7b648a267ca00faf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 28/73] fix: a lost connection fails the calls that wait for it

---
 src/fdb5/api/RemoteFDB.cc                  | 9 +++++++++
 src/fdb5/api/RemoteFDB.h                   | 1 +
 src/fdb5/remote/client/ClientConnection.cc | 8 ++++----
 src/fdb5/remote/client/RemoteStore.cc      | 1 +
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 25177cd..4fc1dd2 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -413,6 +413,15 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
     }
 }
 
+void RemoteFDB::closeConnection() {
+    std::lock_guard lock(messageQueueMutex_);
+    for (auto& [requestID, queue] : messageQueues_) {
+        if (!queue->closed()) {
+            queue->interrupt(std::make_exception_ptr(RemoteFDBException("Unexpected closure of catalogue", controlEndpoint())));
+        }
+    }
+}
+
 static FDBBuilder<RemoteFDB> builder("remote");
 
 }  // namespace fdb5
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 178a2cd..4325a3f 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -82,6 +82,7 @@ private:  // methods
     const eckit::Configuration& clientConfig() const override;
     bool handle(Message message, uint32_t requestID) override;
     bool handle(Message message, uint32_t requestID, eckit::Buffer&& payload) override;
+    void closeConnection() override;
 
 private:  // members
 
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 7e98281..806147c 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -275,12 +275,9 @@ void ClientConnection::dataWriteThreadLoop() {
         dataWriteQueue_.reset();
     }
     catch (...) {
+        // n.b. exceptions must not escape from the thread. This one is reported to the next one that enqueues data
         dataWriteQueue_->interrupt(std::current_exception());
-        throw;
     }
-
-    // We are inside an async, so don't need to worry about exceptions escaping.
-    // They will be released when flush() is called.
 }
 
 void ClientConnection::writeControlStartupMessage(const Configuration& config) {
@@ -400,6 +397,9 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
     failPendingRequests(std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_)));
 
+    // ... nor feed the messages, or the field locations, that the clients are waiting for
+    closeConnection();
+
     teardown();
 }
 
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 7f51cea..880df2b 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -366,6 +366,7 @@ void RemoteStore::print(std::ostream& out) const {
 }
 
 void RemoteStore::closeConnection() {
+    locations_.fail(std::make_exception_ptr(eckit::Exception("Unexpected closure of store", Here())));
     std::lock_guard lock(messageMutex_);
     for (auto& kv : messageQueues_) {
         if (!kv.second->closed()) {
-- 
2.43.0


From 4bcfd645fe34c7d80c203794b1651d7d09503354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 29/73] fix: a failure to archive on the server is reported to
 the client

---
 src/fdb5/remote/server/CatalogueHandler.cc | 33 ++++++++++++++++++----
 src/fdb5/remote/server/CatalogueHandler.h  |  1 +
 src/fdb5/remote/server/ServerConnection.cc | 11 ++++++++
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index aebbcf6..081d56a 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -487,12 +487,22 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         it->second.locationsExpected =
             numArchived;  // setting locationsExpected also means that a flush has been requested
         it->second.archivalCompleted = it->second.fieldLocationsReceived.get_future();
-        if (it->second.locationsArchived == numArchived) {
+        if (it->second.archivalError) {
+            it->second.fieldLocationsReceived.set_exception(it->second.archivalError);
+        }
+        else if (it->second.locationsArchived == numArchived) {
             it->second.fieldLocationsReceived.set_value(numArchived);
         }
     }
 
-    it->second.archivalCompleted.wait();
+    try {
+        it->second.archivalCompleted.get();
+    }
+    catch (...) {
+        std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        it->second.fieldLocationsReceived = std::promise<size_t>{};
+        throw;
+    }
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
         it->second.fieldLocationsReceived = std::promise<size_t>{};
@@ -530,15 +540,26 @@ void CatalogueHandler::archiveBlob(const uint32_t clientID, const uint32_t reque
         }
     }
 
-    if (!it->second.catalogue->selectIndex(idxKey)) {
-        it->second.catalogue->createIndex(idxKey, datumKey.keys().size());
+    try {
+        if (!it->second.catalogue->selectIndex(idxKey)) {
+            it->second.catalogue->createIndex(idxKey, datumKey.keys().size());
+        }
+        it->second.catalogue->archive(idxKey, datumKey, std::move(location));
+    }
+    catch (...) {
+        // a flush must not wait for this location
+        std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        it->second.archivalError = std::current_exception();
+        if (it->second.locationsExpected != 0 && it->second.archivalCompleted.valid()) {
+            it->second.fieldLocationsReceived.set_exception(it->second.archivalError);
+        }
+        throw;
     }
-    it->second.catalogue->archive(idxKey, datumKey, std::move(location));
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
         it->second.locationsArchived++;
         if (it->second.locationsExpected != 0 && it->second.archivalCompleted.valid() &&
-            it->second.locationsExpected == it->second.locationsArchived) {
+            !it->second.archivalError && it->second.locationsExpected == it->second.locationsArchived) {
             it->second.fieldLocationsReceived.set_value(it->second.locationsExpected);
         }
     }
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 6fa7083..54c4cdd 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -39,6 +39,7 @@ struct CatalogueArchiver {
 
     std::promise<size_t> fieldLocationsReceived;
     std::future<size_t> archivalCompleted;
+    std::exception_ptr archivalError;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index e038294..45f7209 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -307,6 +307,17 @@ size_t ServerConnection::archiveThreadLoop() {
     catch (...) {
         // Ensure exception propagates across the queue back to the parent thread.
         archiveQueue_.interrupt(std::current_exception());
+
+        // Tell the client: it may well have sent all it has, and be waiting for this element
+        try {
+            throw;
+        }
+        catch (const std::exception& e) {
+            error(e.what(), elem.clientID_, elem.requestID_);
+        }
+        catch (...) {
+            error("Caught unexpected and unknown error", elem.clientID_, elem.requestID_);
+        }
         throw;
     }
 
-- 
2.43.0


From 7b31bba046b6cee3f728da2b661749e8d4931d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 30/73] fix: a client connection that breaks does not end the
 server

---
 src/fdb5/remote/Connection.cc              | 21 +++++++-
 src/fdb5/remote/Connection.h               |  8 +++
 src/fdb5/remote/server/ServerConnection.cc | 61 ++++++++++++++++------
 src/fdb5/remote/server/ServerConnection.h  |  1 +
 4 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/src/fdb5/remote/Connection.cc b/src/fdb5/remote/Connection.cc
index 2d0be87..9e358ed 100644
--- a/src/fdb5/remote/Connection.cc
+++ b/src/fdb5/remote/Connection.cc
@@ -5,8 +5,10 @@
 
 #include "eckit/io/Buffer.h"
 #include "eckit/log/Log.h"
+#include "eckit/net/TCPSocket.h"
 
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <string_view>
 
@@ -44,6 +46,17 @@ void Connection::teardown() {
     }
 }
 
+void Connection::shutdownSocket(eckit::net::TCPSocket& socket) {
+    // n.b. this wakes up the threads blocked on the socket. It may well be disconnected already
+    try {
+        socket.closeInput();
+        socket.closeOutput();
+    }
+    catch (const std::exception& e) {
+        LOG_DEBUG_LIB(LibFdb5) << "Connection::shutdownSocket: " << e.what() << std::endl;
+    }
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 void Connection::writeUnsafe(const eckit::net::TCPSocket& socket, const void* const data, const size_t length) const {
@@ -134,7 +147,13 @@ void Connection::write(const Message msg, const bool control, const uint32_t cli
 
 void Connection::error(std::string_view msg, uint32_t clientID, uint32_t requestID) const {
     eckit::Log::error() << "[clientID=" << clientID << ",requestID=" << requestID << "]  " << msg << std::endl;
-    write(Message::Error, false, clientID, requestID, msg.data(), msg.length());
+    try {
+        write(Message::Error, false, clientID, requestID, msg.data(), msg.length());
+    }
+    catch (const std::exception& e) {
+        // the connection is down: there is nobody to tell. n.b. called from threads that must not end with an exception
+        eckit::Log::error() << "Cannot report the error to the client: " << e.what() << std::endl;
+    }
 }
 
 eckit::Buffer Connection::readControl(MessageHeader& hdr) const {
diff --git a/src/fdb5/remote/Connection.h b/src/fdb5/remote/Connection.h
index 727354f..6596846 100644
--- a/src/fdb5/remote/Connection.h
+++ b/src/fdb5/remote/Connection.h
@@ -84,6 +84,14 @@ public:  // methods
 
     bool valid() const { return isValid_; }
 
+protected:  // methods
+
+    /// No more use of the connection
+    void invalidate() const { isValid_ = false; }
+
+    /// Wake up whoever is blocked on the socket
+    static void shutdownSocket(eckit::net::TCPSocket& socket);
+
 private:  // methods
 
     eckit::Buffer read(bool control, MessageHeader& hdr) const;
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 45f7209..2c8617d 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -77,12 +77,9 @@ ServerConnection::ServerConnection(eckit::net::TCPSocket& socket, const Config&
 
 ServerConnection::~ServerConnection() {
     // We don't want to die before the worker threads are cleaned up
+    archiveQueue_.close();
     waitForWorkers();
 
-    if (archiveFuture_.valid()) {
-        archiveFuture_.wait();
-    }
-
     eckit::Log::info() << "Done" << std::endl;
 }
 
@@ -379,11 +376,12 @@ void ServerConnection::listeningThreadLoopData() {
     catch (std::exception& e) {
         // n.b. more general than eckit::Exception
         error(e.what(), hdr.clientID(), hdr.requestID);
-        throw;
+        // exceptions must not escape from the thread. End the CONTROL listener, and with it the whole connection
+        shutdownSocket(controlSocket_);
     }
     catch (...) {
         error("Caught unexpected, unknown exception in retrieve worker", hdr.clientID(), hdr.requestID);
-        throw;
+        shutdownSocket(controlSocket_);
     }
 }
 
@@ -392,6 +390,36 @@ void ServerConnection::handle() {
 
     std::thread listeningThreadData;
 
+    try {
+        listeningThreadLoopControl(listeningThreadData);
+    }
+    catch (...) {
+        // The connection is broken, or the client misbehaves: have the threads serving it end before what they use goes
+        shutdownSocket(controlSocket_);
+        if (dataSocket_) {
+            shutdownSocket(*dataSocket_);
+        }
+        if (listeningThreadData.joinable()) {
+            listeningThreadData.join();
+        }
+        archiveQueue_.close();
+        waitForWorkers();
+        throw;
+    }
+
+    if (listeningThreadData.joinable()) {
+        listeningThreadData.join();
+    }
+    const bool complete = archiveQueue_.empty();
+    archiveQueue_.close();
+    waitForWorkers();
+    ASSERT(complete);
+
+    teardown();
+}
+
+void ServerConnection::listeningThreadLoopControl(std::thread& listeningThreadData) {
+
     MessageHeader hdr;
 
     // listen loop
@@ -460,14 +488,6 @@ void ServerConnection::handle() {
             }
         }
     }
-
-    if (listeningThreadData.joinable()) {
-        listeningThreadData.join();
-    }
-    ASSERT(archiveQueue_.empty());
-    archiveQueue_.close();
-
-    teardown();
 }
 
 void ServerConnection::handleException(std::exception_ptr e) {
@@ -522,10 +542,17 @@ void ServerConnection::waitForWorkers() {
         it.second.get();
         eckit::Log::error() << "Thread complete" << std::endl;
     }
+    workerThreads_.clear();
 
-    std::lock_guard<std::mutex> lock(readLocationMutex_);
-    if (readLocationWorker_.joinable()) {
-        readLocationWorker_.join();
+    {
+        std::lock_guard<std::mutex> lock(readLocationMutex_);
+        if (readLocationWorker_.joinable()) {
+            readLocationWorker_.join();
+        }
+    }
+
+    if (archiveFuture_.valid()) {
+        archiveFuture_.wait();
     }
 }
 
diff --git a/src/fdb5/remote/server/ServerConnection.h b/src/fdb5/remote/server/ServerConnection.h
index 903d3fa..13a14b6 100644
--- a/src/fdb5/remote/server/ServerConnection.h
+++ b/src/fdb5/remote/server/ServerConnection.h
@@ -125,6 +125,7 @@ protected:
 
 private:
 
+    void listeningThreadLoopControl(std::thread& listeningThreadData);
     void listeningThreadLoopData();
 
     const eckit::net::TCPSocket& controlSocket() const override { return controlSocket_; }
-- 
2.43.0


From a3bcad21ae07b75cb6ba82c518b5629c18a3dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 31/73] fix: requests do not wait for answers on a connection
 that is lost, or that belong to a closed client

---
 src/fdb5/remote/client/ClientConnection.cc | 33 ++++++++++++++++++----
 src/fdb5/remote/client/ClientConnection.h  |  1 +
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 806147c..e53dbdd 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -23,6 +23,7 @@
 
 #include <unistd.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <exception>
@@ -70,6 +71,7 @@ ClientConnection::ClientConnection(const net::Endpoint& controlEndpoint, const s
 void ClientConnection::add(Client& client) {
     std::lock_guard lock(clientsMutex_);
     clients_[client.id()] = &client;
+    lastClientID_ = std::max(lastClientID_, client.id());
 }
 
 bool ClientConnection::remove(uint32_t clientID) {
@@ -164,6 +166,11 @@ void ClientConnection::disconnect() {
     }
 
     if (connected_) {
+        if (!valid()) {
+            // n.b. the listening threads wait for an answer that may never come
+            shutdownSocket(controlClient_);
+            shutdownSocket(dataClient_);
+        }
         if (dataWriteThread_.joinable()) {
             dataWriteThread_.join();
         }
@@ -193,14 +200,14 @@ RemoteConfiguration ClientConnection::availableFunctionality(const Configuration
 
 std::future<Buffer> ClientConnection::controlWrite(const Client& client, const Message msg, const uint32_t requestID,
                                                    const bool /*dataListener*/, const PayloadList payloads) const {
-    if (!valid()) {
-        throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
-                                 controlEndpoint_);
-    }
-
     std::future<Buffer> f;
     {
         std::lock_guard lock(promisesMutex_);
+        // n.b. checked with the lock: once the connection is invalidated, the pending requests fail, and no more are added
+        if (!valid()) {
+            throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
+                                     controlEndpoint_);
+        }
         auto pp = promises_.emplace(requestID, std::promise<Buffer>{}).first;
         f = pp->second.get_future();
     }
@@ -392,6 +399,8 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
         Log::error() << "error: unknown exception on connection " << controlEndpoint_ << std::endl;
     }
 
+    invalidate();
+
     // nothing else will ever fulfil a promise once the listening thread has stopped
     std::ostringstream ss;
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
@@ -401,6 +410,10 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     closeConnection();
 
     teardown();
+
+    // n.b. the other listening thread would not notice otherwise
+    shutdownSocket(controlClient_);
+    shutdownSocket(dataClient_);
 }
 
 void ClientConnection::listeningControlThreadLoop() {
@@ -421,6 +434,8 @@ void ClientConnection::listeningControlThreadLoop() {
             if (hdr.message == Message::Exit) {
                 LOG_DEBUG_LIB(LibFdb5) << "ClientConnection::listeningControlThreadLoop() -- Control thread stopping"
                                        << std::endl;
+                invalidate();
+                failPendingRequests(std::make_exception_ptr(RemoteFDBException("Connection closed", controlEndpoint_)));
                 return;
             }
             if (hdr.clientID()) {
@@ -438,6 +453,10 @@ void ClientConnection::listeningControlThreadLoop() {
                     std::lock_guard lock(clientsMutex_);
 
                     auto it = clients_.find(hdr.clientID());
+                    if (it == clients_.end() && hdr.clientID() <= lastClientID_) {
+                        // the client is gone, before the end of the answer to a request that it has abandoned
+                        continue;
+                    }
                     if (it == clients_.end()) {
                         std::ostringstream ss;
                         ss << "ERROR: CONTROL connection=" << controlEndpoint_
@@ -528,6 +547,10 @@ void ClientConnection::listeningDataThreadLoop() {
                 std::lock_guard lock(clientsMutex_);
 
                 auto it = clients_.find(hdr.clientID());
+                if (it == clients_.end() && hdr.clientID() <= lastClientID_) {
+                    // the client is gone, before the end of the answer to a request that it has abandoned
+                    continue;
+                }
                 if (it == clients_.end()) {
                     std::ostringstream ss;
                     ss << "ERROR: DATA connection=" << dataEndpoint_ << " received [clientID=" << hdr.clientID()
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index 633e77a..36524e7 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -117,6 +117,7 @@ private:  // members
 
     std::mutex clientsMutex_;
     std::map<uint32_t, Client*> clients_;
+    uint32_t lastClientID_{0};
 
     std::thread listeningControlThread_;
     std::thread listeningDataThread_;
-- 
2.43.0


From 35973915385341903490edd3bbf65dd0a75a77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 32/73] fix: an abandoned remote listing does not block its
 connection

---
 src/fdb5/api/RemoteFDB.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 4fc1dd2..9302dff 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -298,16 +298,23 @@ auto RemoteFDB::forwardApiCall(const HelperClass& helper, const FDBToolRequest&
         // n.b. Don't worry about catching exceptions in lambda, as
         // this is handled in the AsyncIterator.
         new AsyncIterator(shared_from_this(), [messageQueue, remoteFDB](Queue<ValueType>& queue) {
-            Buffer msg{0};
-            while (true) {
-                if (messageQueue->pop(msg) == -1) {
-                    break;
-                }
-                else {
-                    MemoryStream s(msg);
-                    queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+            try {
+                Buffer msg{0};
+                while (true) {
+                    if (messageQueue->pop(msg) == -1) {
+                        break;
+                    }
+                    else {
+                        MemoryStream s(msg);
+                        queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+                    }
                 }
             }
+            catch (...) {
+                // nobody pops any longer: do not let the listening thread wait to push the messages that are still to come
+                messageQueue->interrupt(std::make_exception_ptr(AsyncIterationCancellation{}));
+                throw;
+            }
             // messageQueue goes out of scope --> destructed
         }));
 }
@@ -386,7 +393,12 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 }
                 queue = iter->second;
             }
-            queue->emplace(std::move(payload));
+            try {
+                queue->emplace(std::move(payload));
+            }
+            catch (const AsyncIterationCancellation&) {
+                // the caller is not interested in the rest
+            }
             return true;
         }
 
-- 
2.43.0


From 1664c43687b323340049d124ea202a5416272d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 33/73] fix: archival does not wait for field locations after
 its connection is lost

---
 src/fdb5/remote/client/RemoteStore.cc | 9 ++++++++-
 src/fdb5/remote/client/RemoteStore.h  | 9 ++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 880df2b..787ed2d 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -319,7 +319,14 @@ void RemoteStore::archiveCb(
     payloads.emplace_back(keyStream.position(), keyBuffer.data());
     payloads.emplace_back(length, data);
 
-    dataWrite(Message::Blob, id, payloads);
+    try {
+        dataWrite(Message::Blob, id, payloads);
+    }
+    catch (...) {
+        // n.b. the location will never come
+        locations_.fail(std::current_exception());
+        throw;
+    }
 
     eckit::Log::status() << "Field " << locations_.archived() << " enqueued for store archival" << std::endl;
 }
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 86cb897..91b5d8c 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -65,6 +65,9 @@ public:
     void archive(uint32_t requestID,
                  std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)> catalogue_archive) {
         std::lock_guard<std::mutex> lock(locationMutex_);
+        if (error_) {
+            std::rethrow_exception(error_);
+        }
         locations_[requestID] = catalogue_archive;
         fieldsArchived_++;
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
@@ -103,14 +106,14 @@ public:
         return true;
     }
 
-    /// The locations that are still awaited will never come
+    /// The locations that are still awaited, or that would be from now on, will never come
     void fail(std::exception_ptr e) {
         std::lock_guard<std::mutex> lock(locationMutex_);
-        if (locations_.empty() || error_) {
+        if (error_) {
             return;
         }
         error_ = e;
-        if (archivalCompleted_.valid()) {
+        if (archivalCompleted_.valid() && !locations_.empty()) {
             promiseArchivalCompleted_.set_exception(error_);
         }
     }
-- 
2.43.0


From f3858097df22d9d1fa60604e6fb970c246c554d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 34/73] fix: printing a malformed key does not recurse
 endlessly

---
 src/fdb5/database/BaseKey.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/BaseKey.cc b/src/fdb5/database/BaseKey.cc
index f8360ff..92ea5fc 100644
--- a/src/fdb5/database/BaseKey.cc
+++ b/src/fdb5/database/BaseKey.cc
@@ -18,6 +18,7 @@
 
 #include "metkit/mars/MarsRequest.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <ostream>
 #include <sstream>
@@ -216,8 +217,9 @@ std::string BaseKey::toString() const {
 }
 
 void BaseKey::print(std::ostream& out) const {
-    /// @note this unfortunate (consequence of insertion-order problem) check is not fully safe
-    if (names_.size() == size()) {
+    /// @note names and keys do not match in a malformed key. Printing it (e.g. in the error about it) must not fail
+    if (names_.size() == size() &&
+        std::all_of(names_.begin(), names_.end(), [this](const auto& name) { return keys_.count(name) != 0; })) {
         out << "{" << toString() << "}";
     }
     else {
-- 
2.43.0


From b39e987fede8bf279a5a91311f1d7d90ff996c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 35/73] fix: the end of a connection does not make visible what
 the client has not flushed

---
 src/fdb5/database/Catalogue.h              |  2 ++
 src/fdb5/remote/server/CatalogueHandler.cc |  8 +++++++-
 src/fdb5/toc/TocCatalogueWriter.cc         | 13 +++++++++++++
 src/fdb5/toc/TocCatalogueWriter.h          |  1 +
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/Catalogue.h b/src/fdb5/database/Catalogue.h
index 608e016..76cb59c 100644
--- a/src/fdb5/database/Catalogue.h
+++ b/src/fdb5/database/Catalogue.h
@@ -210,6 +210,8 @@ public:
                            bool unmount) = 0;
     virtual void index(const Key& key, const eckit::URI& uri, eckit::Offset offset, eckit::Length length) = 0;
     virtual void reconsolidate() = 0;
+    /// Forget the locations archived since the last flush, so that closing the catalogue does not make them visible
+    virtual void discard() {}
     virtual size_t archivedLocations() const { NOTIMP; }
 };
 
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 081d56a..fc47184 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -46,7 +46,12 @@ namespace fdb5::remote {
 CatalogueHandler::CatalogueHandler(eckit::net::TCPSocket& socket, const Config& config) :
     ServerConnection(socket, config), fdbControlConnection_(false), fdbDataConnection_(false) {}
 
-CatalogueHandler::~CatalogueHandler() {}
+CatalogueHandler::~CatalogueHandler() {
+    // n.b. what has not been flushed by the client is not known to have been persisted by its store
+    for (auto& [clientID, archiver] : catalogues_) {
+        archiver.catalogue->discard();
+    }
+}
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID) {
 
@@ -594,6 +599,7 @@ bool CatalogueHandler::remove(bool control, uint32_t clientID) {
                 numDataConnection_--;
             }
             if (!it->second.controlConnection && !it->second.dataConnection) {
+                it->second.catalogue->discard();
                 catalogues_.erase(it);
             }
         }
diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 5ab59e7..f9c02e3 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -167,6 +167,19 @@ void TocCatalogueWriter::clean() {
     deselectIndex();
 }
 
+void TocCatalogueWriter::discard() {
+    std::lock_guard lock(mutex_);
+
+    if (archivedLocations_ == 0) {
+        return;
+    }
+
+    archivedLocations_ = 0;
+    deselectIndexUnlocked();
+    indexes_.clear();
+    fullIndexes_.clear();
+}
+
 void TocCatalogueWriter::close() {
 
     closeIndexes();
diff --git a/src/fdb5/toc/TocCatalogueWriter.h b/src/fdb5/toc/TocCatalogueWriter.h
index 872a619..1b5c641 100644
--- a/src/fdb5/toc/TocCatalogueWriter.h
+++ b/src/fdb5/toc/TocCatalogueWriter.h
@@ -54,6 +54,7 @@ public:  // methods
     void index(const Key& key, const eckit::URI& uri, eckit::Offset offset, eckit::Length length) override;
 
     void reconsolidate() override { reconsolidateIndexesAndTocs(); }
+    void discard() override;
 
     /// Mount an existing TocCatalogue, which has a different metadata key (within
     /// constraints) to allow on-line rebadging of data
-- 
2.43.0


From 7f7a8968b6a85ceee2d67a096c5229aae6240e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 36/73] fix: a seekable data handle can be read again after its
 end, and within its current message

---
 src/fdb5/io/FieldHandle.cc | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..e4a02e7 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -118,8 +118,9 @@ void FieldHandle::openCurrent() {
 
     if (current_ && currentMemoryHandle_) {
         delete current_;
-        currentMemoryHandle_ = false;
     }
+    current_ = nullptr;
+    currentMemoryHandle_ = false;
 
     if (currentIdx_ < datahandles_.size()) {
 
@@ -194,18 +195,22 @@ long FieldHandle::read(void* buffer, long length) {
 }
 
 void FieldHandle::close() {
-    if (currentIdx_ < datahandles_.size()) {
+    if (current_ && currentIdx_ < datahandles_.size()) {
         current_->close();
-        if (currentMemoryHandle_) {
-            delete current_;
-        }
-        current_ = nullptr;
     }
+    if (current_ && currentMemoryHandle_) {
+        delete current_;
+    }
+    current_ = nullptr;
+    currentMemoryHandle_ = false;
     currentIdx_ = datahandles_.size();
 }
 
 void FieldHandle::rewind() {
-    if (currentIdx_ == 0 || seekable_) {
+    if (currentIdx_ == 0 && current_ && currentMemoryHandle_) {
+        current_->rewind();
+    }
+    else if (currentIdx_ == 0 || seekable_) {
         if (current_ && currentIdx_ < datahandles_.size()) {
             current_->close();
         }
@@ -256,10 +261,6 @@ eckit::Offset FieldHandle::position() {
 }
 
 eckit::Offset FieldHandle::seek(const eckit::Offset& offset) {
-    if (current_ && currentIdx_ < datahandles_.size()) {
-        current_->close();
-    }
-
     const long long seekto = offset;
     long long accumulated = 0;
 
@@ -271,6 +272,17 @@ eckit::Offset FieldHandle::seek(const eckit::Offset& offset) {
         if (seekto < accumulated) {
             throw eckit::UserError("Cannot seek backward to previous data fields");
         }
+
+        // the current message can be read only once: stay within its copy in memory
+        if (current_ && currentMemoryHandle_ && currentIdx_ < datahandles_.size() &&
+            seekto < accumulated + static_cast<long long>(datahandles_[currentIdx_].first)) {
+            current_->seek(seekto - accumulated);
+            return offset;
+        }
+    }
+
+    if (current_ && currentIdx_ < datahandles_.size()) {
+        current_->close();
     }
 
     accumulated = 0;
-- 
2.43.0


From e8672a3e35688a716df13f42aa237ed61cb57cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 37/73] fix: the offset in the URI of a remote field is
 honoured

---
 src/fdb5/remote/RemoteFieldLocation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/remote/RemoteFieldLocation.cc b/src/fdb5/remote/RemoteFieldLocation.cc
index b6c9d8e..52af78c 100644
--- a/src/fdb5/remote/RemoteFieldLocation.cc
+++ b/src/fdb5/remote/RemoteFieldLocation.cc
@@ -132,7 +132,7 @@ static FieldLocationBuilder<RemoteFieldLocation> builder(RemoteFieldLocation::ty
 class FdbURIManager : public eckit::URIManager {
     bool authority() override { return true; }
     bool query() override { return true; }
-    bool fragment() override { return false; }
+    bool fragment() override { return true; }
 
     bool exists(const eckit::URI& f) override { return f.path().exists(); }
 
-- 
2.43.0


From 53de0f699d6b8b2c8d9659920a71c50c9247cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 38/73] fix: reading a remote data handle a second time is an
 error, not an empty result

---
 src/fdb5/remote/client/RemoteStore.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 787ed2d..eb42371 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -103,7 +103,15 @@ private:  // methods
 
     void print(std::ostream& s) const override { s << "FDBRemoteDataHandle(id=" << requestID_ << ")"; }
 
-    Length openForRead() override { return estimate(); }
+    Length openForRead() override {
+        // The data arrive once only
+        if (complete_ || overallPosition_ > Offset(0)) {
+            std::ostringstream ss;
+            ss << *this << " cannot be read more than once";
+            throw eckit::ReadError(ss.str(), Here());
+        }
+        return estimate();
+    }
     void openForWrite(const Length&) override { NOTIMP; }
     void openForAppend(const Length&) override { NOTIMP; }
     long write(const void*, long) override { NOTIMP; }
@@ -189,6 +197,8 @@ private:  // methods
 
     Length estimate() override { return estimate_; }
 
+    Length size() override { return estimate_; }
+
     Offset position() override { return overallPosition_; }
 
 private:  // members
-- 
2.43.0


From be397b255bd433d29430272c3769be7fbae287e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 39/73] fix: a database whose TOC is not initialised yet does
 not make its readers fail

---
 src/fdb5/toc/TocHandler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 2a0c8a6..5819535 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -10,6 +10,7 @@
 
 #include <fcntl.h>
 #include <pwd.h>
+#include <sys/stat.h>
 #include <sys/types.h>
 #include <cstddef>
 #include <exception>
@@ -237,7 +238,9 @@ TocHandler::~TocHandler() {
 }
 
 bool TocHandler::exists() const {
-    return tocPath_.exists();
+    // n.b. an empty TOC is one that its writer has not initialised yet
+    struct stat st;
+    return ::stat(tocPath_.localPath(), &st) == 0 && st.st_size > 0;
 }
 
 void TocHandler::openForAppend() {
@@ -1328,7 +1331,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
 
     std::vector<Index> indexes;
 
-    if (!tocPath_.exists()) {
+    if (!TocHandler::exists()) {
         return indexes;
     }
 
-- 
2.43.0


From d36a4e62dc953328482c65ef22eabaeddb990147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 40/73] fix: opening a handle on a server does not free the
 schema that other handles of the process use

---
 src/fdb5/rules/Schema.cc | 25 +++++++++++++++++++++++--
 src/fdb5/rules/Schema.h  |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/rules/Schema.cc b/src/fdb5/rules/Schema.cc
index d24d2c9..71fca49 100644
--- a/src/fdb5/rules/Schema.cc
+++ b/src/fdb5/rules/Schema.cc
@@ -23,7 +23,9 @@
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
+#include "eckit/io/Buffer.h"
 #include "eckit/log/Log.h"
+#include "eckit/serialisation/ResizableMemoryStream.h"
 #include "eckit/utils/Tokenizer.h"
 
 #include "fdb5/LibFdb5.h"
@@ -267,9 +269,28 @@ SchemaRegistry& SchemaRegistry::instance() {
 
 const Schema& SchemaRegistry::add(const eckit::PathName& path, Schema* schema) {
     ASSERT(schema);
+    std::unique_ptr<Schema> added(schema);
+
     std::lock_guard lock(m_);
-    schemas_[path] = std::unique_ptr<Schema>(schema);
-    return *schemas_[path];
+
+    auto& current = schemas_[path];
+
+    if (current) {
+        const auto encoded = [](const Schema& what) {
+            eckit::Buffer buffer{1024 * 1024};
+            eckit::ResizableMemoryStream stream{buffer};
+            stream << what;
+            return std::string(static_cast<const char*>(buffer.data()), stream.position());
+        };
+        if (encoded(*current) == encoded(*added)) {
+            return *current;
+        }
+        // References to the schema, and to its rules, are held throughout (e.g. by handles that are still open)
+        superseded_.emplace_back(std::move(current));
+    }
+
+    current = std::move(added);
+    return *current;
 }
 
 const Schema& SchemaRegistry::get(const eckit::PathName& path) {
diff --git a/src/fdb5/rules/Schema.h b/src/fdb5/rules/Schema.h
index 2bb07fa..0bf15bb 100644
--- a/src/fdb5/rules/Schema.h
+++ b/src/fdb5/rules/Schema.h
@@ -145,6 +145,7 @@ private:
 
     std::mutex m_;
     std::map<eckit::PathName, std::unique_ptr<Schema>> schemas_;
+    std::vector<std::unique_ptr<Schema>> superseded_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From c2dd355e6f430d1d7c4af1fcb5a1c1ec9ce6c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 41/73] fix: a refused move leaves the locks of the database as
 they were

---
 src/fdb5/api/local/MoveVisitor.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/api/local/MoveVisitor.cc b/src/fdb5/api/local/MoveVisitor.cc
index 12f1d42..e5e7e6e 100644
--- a/src/fdb5/api/local/MoveVisitor.cc
+++ b/src/fdb5/api/local/MoveVisitor.cc
@@ -41,6 +41,14 @@ MoveVisitor::MoveVisitor(eckit::Queue<MoveElement>& queue, const metkit::mars::M
 
 bool MoveVisitor::visitDatabase(const Catalogue& catalogue) {
     if (catalogue.key().match(request_)) {
+        // what this move locks, and unlocks again when it is refused
+        ControlIdentifiers locked;
+        for (auto id : {ControlIdentifier::Archive, ControlIdentifier::Wipe, ControlIdentifier::UniqueRoot}) {
+            if (catalogue.enabled(id)) {
+                locked |= id;
+            }
+        }
+
         catalogue.control(ControlAction::Disable,
                           ControlIdentifier::Archive | ControlIdentifier::Wipe | ControlIdentifier::UniqueRoot);
 
@@ -49,11 +57,17 @@ bool MoveVisitor::visitDatabase(const Catalogue& catalogue) {
         ASSERT(!catalogue.enabled(ControlIdentifier::Wipe));
         ASSERT(!catalogue.enabled(ControlIdentifier::UniqueRoot));
 
-        EntryVisitor::visitDatabase(catalogue);
-
-        ASSERT(!internalVisitor_);
-        internalVisitor_.reset(catalogue.moveVisitor(store(), request_, dest_, queue_));
-        internalVisitor_->visitDatabase(catalogue);
+        try {
+            EntryVisitor::visitDatabase(catalogue);
+
+            ASSERT(!internalVisitor_);
+            internalVisitor_.reset(catalogue.moveVisitor(store(), request_, dest_, queue_));
+            internalVisitor_->visitDatabase(catalogue);
+        }
+        catch (...) {
+            catalogue.control(ControlAction::Enable, locked);
+            throw;
+        }
 
         return true;
     }
-- 
2.43.0


From 49995e5058c9ddfead16145e5d32990b2a51e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 42/73] fix: a move refuses a database whose indexes are locked
 instead of waiting for ever

---
 src/fdb5/toc/TocMoveVisitor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 47dace3..8077b78 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -27,6 +27,7 @@
 #include <fdb5/LibFdb5.h>
 #include <sys/file.h>
 #include <sys/types.h>
+#include <unistd.h>
 #include <cstring>
 
 using namespace eckit;
@@ -57,8 +58,12 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     while ((dp = readdir(dirp)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
             eckit::PathName src_ = PathName(catalogue_.basePath()) / dp->d_name;
-            int fd = ::open(src_.asString().c_str(), O_RDWR);
-            if (::flock(fd, LOCK_EX)) {
+            int fd;
+            SYSCALL(fd = ::open(src_.asString().c_str(), O_RDWR));
+            const bool locked = ::flock(fd, LOCK_EX | LOCK_NB) != 0;
+            ::close(fd);
+            if (locked) {
+                closedir(dirp);
                 std::ostringstream ss;
                 ss << "Index file " << dp->d_name << " is locked";
                 throw eckit::UserError(ss.str(), Here());
-- 
2.43.0


From 5cd77ccbae6fe7143302d8d0eab2084032b35612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 43/73] fix: databases with a name given by the dbnames table
 are found by requests that leave keywords out

---
 src/fdb5/toc/RootManager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 60ca1cd..1fe96dc 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -79,7 +79,7 @@ public:
                 return false;
             }
 
-            if (!missing || i->second != missing) {
+            if (!missing || (i->second != missing && !i->second.empty())) {
                 if (!j->second.match(i->second)) {
                     return false;
                 }
-- 
2.43.0


From 35b61c007cd368c7d670be693168cca66c535181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 44/73] fix: the data files of a moved database go to the
 directory of its TOC

---
 src/fdb5/toc/TocStore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 3c9254b..869084e 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -374,7 +374,7 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
     for (const eckit::PathName& root : StoreRootManager(config).canMoveToRoots(key)) {
         if (root.sameAs(destPath)) {
             eckit::PathName src_db = directory_;
-            eckit::PathName dest_db = destPath / key.valuesToString();
+            eckit::PathName dest_db = destPath / directory_.baseName(true);
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
-- 
2.43.0


From 9afc7ea52482962f0f4d6395ef0c70a81bdd755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 45/73] fix: a field whose metadata is rejected is no longer
 stored

The metadata were validated after the field had been handed to the store and
the catalogue, so the next flush made a rejected field visible.
---
 src/fdb5/database/Archiver.cc | 2 --
 src/fdb5/rules/Rule.cc        | 3 +++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..077b23b 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -55,8 +55,6 @@ void Archiver::archive(const Key& key, BaseArchiveVisitor& visitor) {
         oss << "FDB: Could not find a rule to archive " << key;
         throw eckit::SeriousBug(oss.str());
     }
-    // validate metadata
-    rule->check(key);
 }
 
 void Archiver::flushDatabase(Database& db) {
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 9b9627e..d95fc77 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -565,6 +565,9 @@ bool RuleDatum::expand(const Key& field, WriteVisitor& visitor, Key& full) const
             throw eckit::SeriousBug(oss.str());
         }
 
+        // validate metadata (before anything is written)
+        check(field);
+
         if (visitor.selectDatum(*key, full)) {
             visitor.rule(this);
             static const bool matchFirstFdbRule = eckit::Resource<bool>("matchFirstFdbRule", true);
-- 
2.43.0


From 356b5046fcec950d712c22747c5fa13b2cb40409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 46/73] fix: different values of keys of type Double are
 different fields

They were written with 6 significant digits, so fields which differ beyond
those replaced each other; and integral values beyond 6 digits were spelt
differently on archival and on retrieval, and could not be retrieved.
---
 src/fdb5/types/TypeDouble.cc | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/types/TypeDouble.cc b/src/fdb5/types/TypeDouble.cc
index eace950..612dc94 100644
--- a/src/fdb5/types/TypeDouble.cc
+++ b/src/fdb5/types/TypeDouble.cc
@@ -8,6 +8,10 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cmath>
+#include <cstdio>
+#include <cstdlib>
+
 #include "eckit/utils/Translator.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -23,16 +27,30 @@ TypeDouble::TypeDouble(const std::string& name, const std::string& type) : Type(
 
 TypeDouble::~TypeDouble() {}
 
-std::string TypeDouble::toKey(const std::string& value) const {
-    double v = eckit::Translator<std::string, double>()(value);
-    long long ll = static_cast<long long>(v);
+namespace {
+
+/// The canonical spelling, which distinguishes any two different values
+std::string canonical(double v) {
 
-    if (ll == v) {
-        return eckit::Translator<long long, std::string>()(ll);
+    // beyond 2^53 not every integer is a double (and the conversion could overflow)
+    if (std::abs(v) <= 9007199254740992. && v == std::trunc(v)) {
+        return eckit::Translator<long long, std::string>()(static_cast<long long>(v));
     }
-    else {
-        return eckit::Translator<double, std::string>()(v);
+
+    char buf[64];
+    for (int precision = 6; precision <= 17; ++precision) {
+        std::snprintf(buf, sizeof(buf), "%.*g", precision, v);
+        if (std::strtod(buf, nullptr) == v) {
+            break;
+        }
     }
+    return buf;
+}
+
+}  // namespace
+
+std::string TypeDouble::toKey(const std::string& value) const {
+    return canonical(eckit::Translator<std::string, double>()(value));
 }
 
 void TypeDouble::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
@@ -41,12 +59,10 @@ void TypeDouble::getValues(const metkit::mars::MarsRequest& request, const std::
 
     request.getValues(keyword, dblValues, true);
 
-    eckit::Translator<double, std::string> t;
-
     values.reserve(dblValues.size());
 
     for (std::vector<double>::const_iterator i = dblValues.begin(); i != dblValues.end(); ++i) {
-        values.push_back(t(*i));
+        values.push_back(canonical(*i));
     }
 }
 
-- 
2.43.0


From c22a27e46d748a5b2e01461c57d24bde00780688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 47/73] fix: keys of type Integer are stored in their canonical
 spelling

Requests were canonicalised, stored values were not: a field archived with 01
or 1.0 could not be retrieved with any spelling, and text read as the number
it starts with.
---
 src/fdb5/types/TypeInteger.cc | 41 ++++++++++++++++++++++++++++-------
 src/fdb5/types/TypeInteger.h  |  2 ++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/types/TypeInteger.cc b/src/fdb5/types/TypeInteger.cc
index 08b5f08..75b303d 100644
--- a/src/fdb5/types/TypeInteger.cc
+++ b/src/fdb5/types/TypeInteger.cc
@@ -8,7 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
-#include "eckit/utils/Translator.h"
+#include <algorithm>
 
 #include "metkit/mars/MarsRequest.h"
 
@@ -23,18 +23,43 @@ TypeInteger::TypeInteger(const std::string& name, const std::string& type) : Typ
 
 TypeInteger::~TypeInteger() {}
 
+std::string TypeInteger::toKey(const std::string& value) const {
+
+    // the canonical spelling of integers (e.g. 1 for 01, +1, 1.0), other text is kept as it is
+
+    const std::string text = Type::toKey(value);
+
+    std::size_t pos = 0;
+    const bool negative = !text.empty() && text[0] == '-';
+    if (!text.empty() && (text[0] == '-' || text[0] == '+')) {
+        ++pos;
+    }
+
+    const auto end = std::min(text.find_first_not_of("0123456789", pos), text.size());
+    if (end == pos) {
+        return text;
+    }
+    if (end < text.size() && (text[end] != '.' || text.find_first_not_of('0', end + 1) != std::string::npos)) {
+        return text;
+    }
+
+    const auto first = std::min(text.find_first_not_of('0', pos), end);
+    if (first == end) {
+        return "0";
+    }
+    return (negative ? "-" : "") + text.substr(first, end - first);
+}
+
 void TypeInteger::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                             eckit::StringList& values, const CatalogueReader*) const {
-    std::vector<long> intValues;
-
-    request.getValues(keyword, intValues, true);
+    eckit::StringList given;
 
-    eckit::Translator<long, std::string> t;
+    request.getValues(keyword, given, true);
 
-    values.reserve(intValues.size());
+    values.reserve(given.size());
 
-    for (std::vector<long>::const_iterator i = intValues.begin(); i != intValues.end(); ++i) {
-        values.push_back(t(*i));
+    for (const auto& value : given) {
+        values.push_back(toKey(value));
     }
 }
 
diff --git a/src/fdb5/types/TypeInteger.h b/src/fdb5/types/TypeInteger.h
index 271533e..fe9e80c 100644
--- a/src/fdb5/types/TypeInteger.h
+++ b/src/fdb5/types/TypeInteger.h
@@ -30,6 +30,8 @@ public:  // methods
 
     ~TypeInteger() override;
 
+    std::string toKey(const std::string& value) const override;
+
     void getValues(const metkit::mars::MarsRequest& request, const std::string& keyword, eckit::StringList& values,
                    const CatalogueReader* cat) const override;
 
-- 
2.43.0


From fa8d2c6501b7787620fc1ca823f53073c599502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 48/73] fix: dates not in canonical form are rejected on
 archival

Only dates relative to the current day were recognised as not canonical. A
field archived with any other spelling, or a date which does not exist, could
not be retrieved.
---
 src/fdb5/types/TypeDate.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fdb5/types/TypeDate.cc b/src/fdb5/types/TypeDate.cc
index c909f49..1d2a41e 100644
--- a/src/fdb5/types/TypeDate.cc
+++ b/src/fdb5/types/TypeDate.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cctype>
+
 #include "eckit/utils/Translator.h"
 
 #include "eckit/types/Date.h"
@@ -36,6 +38,13 @@ std::string TypeDate::tidy(const std::string& value) const {
             return t(now.yyyymmdd());
         }
     }
+
+    // other spellings of dates (e.g. 2020-01-01), throws if there is no such date
+    if (!value.empty() && std::isdigit(static_cast<unsigned char>(value[0]))) {
+        eckit::Translator<long, std::string> t;
+        return t(eckit::Date(value).yyyymmdd());
+    }
+
     return value;
 }
 
-- 
2.43.0


From 00da0308e4a124e3fd930723025816b6c93d0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 49/73] fix: values which contain the separator of values are
 rejected on archival

A value with a colon made its whole database impossible to list, and a
database with a colon or a slash in its name could not be found again.
---
 src/fdb5/rules/Rule.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index d95fc77..8d53e80 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -513,6 +513,16 @@ void Rule::check(const Key& key) const {
                 oss << keyword << "=" << value << " - expecting " << tidyValue << '\n';
                 throw eckit::UserError(oss.str(), Here());
             }
+
+            // The characters which separate values (and directories) cannot be part of a value
+            const bool isDatum = parent_ && parent_->parent_;
+            const auto stored = registry().lookupType(keyword).toKey(value);
+            if (keyword != "quantile" && stored.find_first_of(isDatum ? ":" : ":/") != std::string::npos) {
+                std::ostringstream oss;
+                oss << "Rule check - metadata not valid (contains a separator) - found: ";
+                oss << keyword << "=" << value << '\n';
+                throw eckit::UserError(oss.str(), Here());
+            }
         }
     }
 
-- 
2.43.0


From 9b216feae90921fcbbe50a5549a3f187fddf1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 50/73] fix: callbacks registered with a selecting FDB are
 called

They were kept by the front-end, while its lanes archive and flush.
---
 src/fdb5/api/SelectFDB.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/SelectFDB.cc b/src/fdb5/api/SelectFDB.cc
index 983436f..129f417 100644
--- a/src/fdb5/api/SelectFDB.cc
+++ b/src/fdb5/api/SelectFDB.cc
@@ -87,7 +87,9 @@ void SelectFDB::archive(const Key& key, const void* data, size_t length) {
 
     for (auto& lane : subFdbs_) {
         if (lane.matches(key, Matcher::DontMatchOnMissing)) {
-            lane.get().archive(key, data, length);
+            auto& fdb = lane.get();
+            fdb.registerArchiveCallback(archiveCallback_);
+            fdb.archive(key, data, length);
             return;
         }
     }
@@ -182,6 +184,7 @@ void SelectFDB::flush() {
     for (auto& lane : subFdbs_) {
         lane.flush();
     }
+    flushCallback_();
 }
 
 
-- 
2.43.0


From 1d7dd6682b81ff87340766597873b84583d13cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 51/73] fix: schema rules excluding one value match all others

key=!value was read as key=value, and the exclusion of several values was
printed as a list of values to match.
---
 src/fdb5/rules/ExcludeAll.cc   | 2 +-
 src/fdb5/rules/SchemaParser.cc | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/rules/ExcludeAll.cc b/src/fdb5/rules/ExcludeAll.cc
index 2f95dab..440f999 100644
--- a/src/fdb5/rules/ExcludeAll.cc
+++ b/src/fdb5/rules/ExcludeAll.cc
@@ -65,7 +65,7 @@ bool ExcludeAll::match(const std::string& value) const {
 void ExcludeAll::dump(std::ostream& s, const std::string& keyword, const TypesRegistry& registry) const {
     const char* sep = "";
     registry.dump(s, keyword);
-    s << "=";
+    s << "=!";
     for (std::set<std::string>::const_iterator i = values_.begin(); i != values_.end(); ++i) {
         s << sep << *i;
         sep = "/";
diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..e3357e7 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -112,15 +112,16 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         }
     }
 
+    if (exclude) {
+        return std::make_unique<Predicate>(k, new ExcludeAll(values));
+    }
+
     switch (values.size()) {
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
-            if (exclude) {
-                return std::make_unique<Predicate>(k, new ExcludeAll(values));
-            }
             return std::make_unique<Predicate>(k, new MatchAny(values));
     }
 }
-- 
2.43.0


From 9d1b759f4e1a77d97a138143292d0b72b7b62073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 52/73] fix: optional keys of a rule do not count as required

A rule with more keys on one level, optional ones included, than the field has
in total was never considered.
---
 src/fdb5/rules/Rule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 8d53e80..66d0196 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -186,7 +186,7 @@ size_t Rule::size() const {
 
 std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
-    if (field.size() < predicates_.size()) {
+    if (field.size() < requiredPredicateCount(predicates_)) {
         return {};
     }
 
-- 
2.43.0


From e797f16482ce4086462b4f51bb2269d92c3f48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 53/73] fix: a schema with a rule without third level is
 rejected

It was accepted, and ended in the use of a null pointer.
---
 src/fdb5/rules/SchemaParser.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index e3357e7..b7673c0 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -182,10 +182,6 @@ std::unique_ptr<RuleIndex> SchemaParser::parseIndex() {
     const std::size_t line = line_ + 1;
 
     char c = peek();
-    if (c == ']') {
-        consume(c);
-        return std::make_unique<RuleIndex>(line, predicates, types, std::move(rule));
-    }
 
     for (;;) {
 
@@ -205,6 +201,9 @@ std::unique_ptr<RuleIndex> SchemaParser::parseIndex() {
         c = peek();
         if (c == ']') {
             consume(c);
+            if (!rule) {
+                throw StreamParser::Error("Syntax error: rule without third level", line_ + 1);
+            }
             return std::make_unique<RuleIndex>(line, predicates, types, std::move(rule));
         }
     }
-- 
2.43.0


From 002b36e521e5e9e804732ac968cd09343c92dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 54/73] fix: data files whose name starts with an empty value
 are found again

An index stores the names of its data files relative to its directory. When the
first (optional) key of the index is absent the name starts with a ':', which was
taken for the end of an empty URI scheme, and the fields could not be read.
---
 src/fdb5/database/UriStore.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/UriStore.cc b/src/fdb5/database/UriStore.cc
index f0867a4..a1ca014 100644
--- a/src/fdb5/database/UriStore.cc
+++ b/src/fdb5/database/UriStore.cc
@@ -37,7 +37,13 @@ UriStore::UriStore(const eckit::PathName& directory, eckit::Stream& s) :
 
         s >> id;
         s >> p;
-        eckit::URI uri(p);
+
+        // A plain file name is a file of this directory, whatever characters it has (values may precede a ':')
+        if (p.find('/') == std::string::npos) {
+            p = (directory_ / p).asString();
+        }
+
+        eckit::URI uri = p[0] == '/' ? eckit::URI("file", eckit::PathName(p)) : eckit::URI(p);
 
         if ((uri.scheme() == "unix") || (uri.scheme() == "file")) {
             eckit::PathName path = uri.path();
-- 
2.43.0


From 16c14fb0261fbc71ddc4c96276f48d21d922f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 55/73] fix: the rule of a database or index is the one with
 exactly its keywords

The rule that belongs to the key of a database (or index) was the first whose
predicates accept it, even if it lacks some of the rule's keywords or has others.
With several rules fields were refused, or indexed by another rule than the one
that matched them.
---
 src/fdb5/rules/Rule.cc   | 15 +++++++++++++++
 src/fdb5/rules/Rule.h    |  3 +++
 src/fdb5/rules/Schema.cc | 25 +++++++++++++++----------
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 66d0196..28f6d01 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -382,6 +382,21 @@ bool Rule::match(const Key& key) const {
     return true;
 }
 
+bool Rule::hasKeywordsOf(const Key& key) const {
+
+    eckit::StringSet keywords;
+
+    for (const auto& pred : predicates_) {
+        const auto& keyword = registry_.lookupType(pred->keyword()).alias();
+        if (!pred->optional() && !key.find(keyword).second) {
+            return false;
+        }
+        keywords.insert(keyword);
+    }
+
+    return std::all_of(key.begin(), key.end(), [&](const auto& kv) { return keywords.count(kv.first) > 0; });
+}
+
 bool Rule::tryFill(Key& key, const eckit::StringList& values) const {
     // See FDB-103. This is a hack to work around the indexing abstraction
     // being leaky.
diff --git a/src/fdb5/rules/Rule.h b/src/fdb5/rules/Rule.h
index 9fcb6e8..32eb1c6 100644
--- a/src/fdb5/rules/Rule.h
+++ b/src/fdb5/rules/Rule.h
@@ -63,6 +63,9 @@ public:  // methods
 
     bool match(const Key& key) const;
 
+    /// Does a (canonical) key have the keywords of this rule, and no others?
+    bool hasKeywordsOf(const Key& key) const;
+
     void check(const Key& key) const;
 
     void dump(std::ostream& out) const;
diff --git a/src/fdb5/rules/Schema.cc b/src/fdb5/rules/Schema.cc
index 71fca49..a8896b0 100644
--- a/src/fdb5/rules/Schema.cc
+++ b/src/fdb5/rules/Schema.cc
@@ -91,15 +91,18 @@ Schema::~Schema() {
 
 const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const {
 
-    for (const auto& dbRule : rules_) {
-        if (!dbRule->match(dbKey)) {
-            continue;
-        }
-        for (const auto& idxRule : dbRule->rules()) {
-            if (!idxRule->match(idxKey)) {
+    // The rule that made the keys has exactly their keywords, others may match just as well
+    for (bool exact : {true, false}) {
+        for (const auto& dbRule : rules_) {
+            if (!dbRule->match(dbKey) || (exact && !dbRule->hasKeywordsOf(dbKey))) {
                 continue;
             }
-            return idxRule->rule();
+            for (const auto& idxRule : dbRule->rules()) {
+                if (!idxRule->match(idxKey) || (exact && !idxRule->hasKeywordsOf(idxKey))) {
+                    continue;
+                }
+                return idxRule->rule();
+            }
         }
     }
 
@@ -110,9 +113,11 @@ const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const
 
 const RuleDatabase& Schema::matchingRule(const Key& dbKey) const {
 
-    for (const auto& rule : rules_) {
-        if (rule->match(dbKey)) {
-            return *rule;
+    for (bool exact : {true, false}) {
+        for (const auto& rule : rules_) {
+            if (rule->match(dbKey) && (!exact || rule->hasKeywordsOf(dbKey))) {
+                return *rule;
+            }
         }
     }
 
-- 
2.43.0


From 77d959341591b9437450a5d5796f94f942cd56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 56/73] fix: a retrieval does not filter index keys by the axes
 of another rule's index

While the index rules of a database are tried one after the other, the index that the
previous rule selected was still used to filter the requested values, so that fields
were not found when a keyword is a datum key in one rule and an index key in the next.
Parameters above the datum level are taken as requested.
---
 src/fdb5/database/ReadVisitor.cc | 10 ++++++----
 src/fdb5/database/ReadVisitor.h  |  2 +-
 src/fdb5/rules/Rule.cc           |  8 +++++---
 src/fdb5/rules/Rule.h            |  3 ++-
 src/fdb5/types/TypeParam.cc      | 21 ++++++++++++++-------
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/fdb5/database/ReadVisitor.cc b/src/fdb5/database/ReadVisitor.cc
index b52708a..63c9be4 100644
--- a/src/fdb5/database/ReadVisitor.cc
+++ b/src/fdb5/database/ReadVisitor.cc
@@ -12,14 +12,16 @@
 namespace fdb5 {
 
 void ReadVisitor::values(const metkit::mars::MarsRequest& request, const std::string& keyword,
-                         const TypesRegistry& registry, eckit::StringList& values) {
+                         const TypesRegistry& registry, eckit::StringList& values, bool useAxes) {
+    const CatalogueReader* catalogue = useAxes ? catalogue_ : nullptr;
+
     const auto& type = registry.lookupType(keyword);
     eckit::StringList list;
-    type.getValues(request, keyword, list, catalogue_);
+    type.getValues(request, keyword, list, catalogue);
 
     std::optional<std::reference_wrapper<const eckit::DenseSet<std::string>>> filter;
-    if (catalogue_) {
-        filter = catalogue_->axis(type.alias());
+    if (catalogue) {
+        filter = catalogue->axis(type.alias());
     }
 
     for (const auto& value : list) {
diff --git a/src/fdb5/database/ReadVisitor.h b/src/fdb5/database/ReadVisitor.h
index 355a038..b7ca5f7 100644
--- a/src/fdb5/database/ReadVisitor.h
+++ b/src/fdb5/database/ReadVisitor.h
@@ -57,7 +57,7 @@ public:  // methods
     virtual const Schema& databaseSchema() const = 0;
 
     void values(const metkit::mars::MarsRequest& request, const std::string& keyword, const TypesRegistry& registry,
-                eckit::StringList& values);
+                eckit::StringList& values, bool useAxes = true);
 
 protected:  // methods
 
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 28f6d01..81410fe 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -328,7 +328,8 @@ std::vector<Key> Rule::findMatchingKeys(const metkit::mars::MarsRequest& request
     return graph.makeKeys();
 }
 
-std::vector<Key> Rule::findMatchingKeys(const metkit::mars::MarsRequest& request, ReadVisitor& visitor) const {
+std::vector<Key> Rule::findMatchingKeys(const metkit::mars::MarsRequest& request, ReadVisitor& visitor,
+                                        bool useAxes) const {
 
     RuleGraph graph;
 
@@ -347,7 +348,7 @@ std::vector<Key> Rule::findMatchingKeys(const metkit::mars::MarsRequest& request
             }
         }
         else {
-            visitor.values(request, keyword, registry_, values);
+            visitor.values(request, keyword, registry_, values, useAxes);
         }
 
         auto& node = graph.push(keyword);
@@ -568,7 +569,8 @@ void RuleDatum::encode(eckit::Stream& out) const {
 
 void RuleDatum::expand(const metkit::mars::MarsRequest& request, ReadVisitor& visitor, Key& full) const {
 
-    for (const auto& key : findMatchingKeys(request, visitor)) {
+    // (axes belong to the index selected; above there is none, or still one that another rule selected)
+    for (const auto& key : findMatchingKeys(request, visitor, true)) {
 
         full.pushFrom(key);
 
diff --git a/src/fdb5/rules/Rule.h b/src/fdb5/rules/Rule.h
index 32eb1c6..fc0f7a8 100644
--- a/src/fdb5/rules/Rule.h
+++ b/src/fdb5/rules/Rule.h
@@ -88,7 +88,8 @@ protected:  // methods
 
     std::optional<Key> findMatchingKey(const Key& field) const;
 
-    std::vector<Key> findMatchingKeys(const metkit::mars::MarsRequest& request, ReadVisitor& visitor) const;
+    std::vector<Key> findMatchingKeys(const metkit::mars::MarsRequest& request, ReadVisitor& visitor,
+                                      bool useAxes = false) const;
 
 private:  // methods
 
diff --git a/src/fdb5/types/TypeParam.cc b/src/fdb5/types/TypeParam.cc
index def4695..0a41365 100644
--- a/src/fdb5/types/TypeParam.cc
+++ b/src/fdb5/types/TypeParam.cc
@@ -29,21 +29,28 @@ TypeParam::~TypeParam() {}
 
 void TypeParam::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                           eckit::StringList& values, const CatalogueReader* cat) const {
-    ASSERT(cat);
-
     eckit::StringList us;
 
     Type::getValues(request, keyword, us, cat);
 
+    // Without an axis (no index selected yet) there is nothing to match the parameters with
+    std::optional<std::reference_wrapper<const Axis>> ax;
+    if (cat) {
+        ax = cat->axis(keyword);
+    }
+    if (!ax) {
+        for (const auto& u : us) {
+            values.push_back(Param(u));
+        }
+        return;
+    }
+
     std::vector<Param> user;
     std::copy(us.begin(), us.end(), std::back_inserter(user));
 
     std::vector<Param> axis;
-    auto ax = cat->axis(keyword);
-    if (ax) {
-        std::copy(ax->get().begin(), ax->get().end(), std::back_inserter(axis));
-        std::sort(axis.begin(), axis.end());
-    }
+    std::copy(ax->get().begin(), ax->get().end(), std::back_inserter(axis));
+    std::sort(axis.begin(), axis.end());
 
     bool windConversion = false;
     if (strictMatching_) {
-- 
2.43.0


From b5dd6ded5afc16a88720eb6ba4359f7e0b2c745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 57/73] fix: list elements of fields without datum keys can be
 sent

A field all of whose datum keys are optional and absent has a location, but an
empty datum key, from which the receiver concluded that there is no location.
---
 src/fdb5/api/helpers/ListElement.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fdb5/api/helpers/ListElement.cc b/src/fdb5/api/helpers/ListElement.cc
index b4a45a5..b9e866d 100644
--- a/src/fdb5/api/helpers/ListElement.cc
+++ b/src/fdb5/api/helpers/ListElement.cc
@@ -27,6 +27,14 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+// On a stream a datum key announces the location. The one of a field whose datum keys are all optional, and absent,
+// is sent with an empty keyword instead.
+const std::string noKeyword{};
+
+}  // namespace
+
 ListElement::ListElement(Key dbKey, const TimeStamp& timestamp) : keyParts_{std::move(dbKey)}, timestamp_{timestamp} {}
 
 ListElement::ListElement(Key dbKey, Key indexKey, const TimeStamp& timestamp) :
@@ -51,6 +59,9 @@ ListElement::ListElement(eckit::Stream& stream) {
 
     if (!keyParts_[2].empty()) {
         loc_.reset(eckit::Reanimator<FieldLocation>::reanimate(stream));
+        if (keyParts_[2].find(noKeyword).second) {
+            keyParts_[2] = Key{};
+        }
     }
     stream >> timestamp_;
 }
@@ -119,6 +130,9 @@ void ListElement::encode(eckit::Stream& stream) const {
     keys.push_back(keyParts_[0]);
     keys.push_back(keyParts_[1]);
     keys.push_back(keyParts_[2]);
+    if (loc_ && keys.back().empty()) {
+        keys.back().push(noKeyword, "");
+    }
     stream << keys;
 
     if (loc_) {
-- 
2.43.0


From fa371b1a1a9fe92db725d88ae0c145fa8746c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 58/73] fix: the error text of the C interface belongs to the
 thread that made the call

Failing calls of several threads assigned the same string without
synchronisation, and each was told the text of whichever failed last.
---
 src/fdb5/api/fdb_c.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index a8a301d..f443fee 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -277,7 +277,8 @@ private:
 
 /* Error handling */
 
-static std::string g_current_error_str;
+/// @note each thread is told about its own errors
+static thread_local std::string g_current_error_str;
 static fdb_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context = nullptr;
 
-- 
2.43.0


From 38d52c5de39677ce7a996d1ccd571759eed97b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 59/73] fix: arguments missing in calls of the C interface are
 errors

Most functions assert that their pointers are set; the others, and a split
key that no list element was assigned to, ended the process.
---
 src/fdb5/api/fdb_c.cc | 47 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index f443fee..31dda75 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -118,6 +118,7 @@ struct fdb_split_key_t {
     }
 
     int next() {
+        ASSERT_MSG(keys_, "keys are missing!");
         ++(*this);
         if (curr_ == level_->end()) {
             return FDB_ITERATION_COMPLETE;
@@ -386,20 +387,32 @@ int fdb_set_failure_handler(fdb_failure_handler_t handler, void* context) {
 }
 
 int fdb_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = fdb5_version_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = fdb5_version_str();
+    });
 }
 
 int fdb_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = fdb5_git_sha1(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = fdb5_git_sha1();
+    });
 }
 
 
 int fdb_new_handle(fdb_handle_t** fdb) {
-    return wrapApiFunction([fdb] { *fdb = new fdb_handle_t(); });
+    return wrapApiFunction([fdb] {
+        ASSERT(fdb);
+        *fdb = new fdb_handle_t();
+    });
 }
 
 int fdb_new_handle_from_yaml(fdb_handle_t** fdb, const char* system_config, const char* user_config) {
     return wrapApiFunction([fdb, system_config, user_config] {
+        ASSERT(fdb);
+        ASSERT(system_config);
+        ASSERT(user_config);
         Config cfg{YAMLConfiguration(std::string(system_config)), YAMLConfiguration(std::string(user_config))};
         cfg.set("configSource", "yaml");
         cfg.expandConfig();
@@ -568,7 +581,10 @@ int fdb_delete_handle(fdb_handle_t* fdb) {
 /** ancillary functions for creating/destroying FDB objects */
 
 int fdb_new_key(fdb_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_key_t();
+    });
 }
 int fdb_key_add(fdb_key_t* key, const char* param, const char* value) {
     return wrapApiFunction([key, param, value] {
@@ -587,7 +603,10 @@ int fdb_delete_key(fdb_key_t* key) {
 }
 
 int fdb_new_request(fdb_request_t** req) {
-    return wrapApiFunction([req] { *req = new fdb_request_t("retrieve"); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        *req = new fdb_request_t("retrieve");
+    });
 }
 int fdb_request_add(fdb_request_t* req, const char* param, const char* values[], int numValues) {
     return wrapApiFunction([req, param, values, numValues] {
@@ -601,11 +620,16 @@ int fdb_request_get(fdb_request_t* req, const char* param, char** values[], size
     return wrapApiFunction([req, param, values, numValues] {
         ASSERT(req);
         ASSERT(param);
+        ASSERT(values);
+        ASSERT(numValues);
         *numValues = req->values(param, values);
     });
 }
 int fdb_expand_request(fdb_request_t* req) {
-    return wrapApiFunction([req] { req->expand(); });
+    return wrapApiFunction([req] {
+        ASSERT(req);
+        req->expand();
+    });
 }
 int fdb_delete_request(fdb_request_t* req) {
     return wrapApiFunction([req] {
@@ -644,7 +668,10 @@ int fdb_delete_listiterator(fdb_listiterator_t* it) {
 }
 
 int fdb_new_splitkey(fdb_split_key_t** key) {
-    return wrapApiFunction([key] { *key = new fdb_split_key_t(); });
+    return wrapApiFunction([key] {
+        ASSERT(key);
+        *key = new fdb_split_key_t();
+    });
 }
 
 int fdb_splitkey_next_metadata(fdb_split_key_t* it, const char** key, const char** value, size_t* level) {
@@ -667,7 +694,10 @@ int fdb_delete_splitkey(fdb_split_key_t* key) {
 }
 
 int fdb_new_datareader(fdb_datareader_t** dr) {
-    return wrapApiFunction([dr] { *dr = new fdb_datareader_t(); });
+    return wrapApiFunction([dr] {
+        ASSERT(dr);
+        *dr = new fdb_datareader_t();
+    });
 }
 int fdb_datareader_open(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([dr, size] {
@@ -715,6 +745,7 @@ int fdb_datareader_read(fdb_datareader_t* dr, void* buf, long count, long* read)
 int fdb_datareader_size(fdb_datareader_t* dr, long* size) {
     return wrapApiFunction([=] {
         ASSERT(dr);
+        ASSERT(size);
         *size = dr->size();
     });
 }
-- 
2.43.0


From 751d3f8c2c301a8b666bfec2994e12bcdd46cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 60/73] fix: deleting a handle of the C interface reports that
 its data cannot be flushed

The exception left the destructor of the FDB, and ended the process.
---
 src/fdb5/api/fdb_c.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fdb5/api/fdb_c.cc b/src/fdb5/api/fdb_c.cc
index 31dda75..2a06808 100644
--- a/src/fdb5/api/fdb_c.cc
+++ b/src/fdb5/api/fdb_c.cc
@@ -574,6 +574,7 @@ int fdb_delete_purge_iterator(fdb_purge_iterator_t* it) {
 int fdb_delete_handle(fdb_handle_t* fdb) {
     return wrapApiFunction([fdb] {
         ASSERT(fdb);
+        fdb->flush();  // the destructor cannot report that this failed
         delete fdb;
     });
 }
-- 
2.43.0


From c47574f422fa3d4c40bbac659b1d7c9581996de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 61/73] fix: masking a mounted database masks no other one

Entries are masked by file name, and the TOC of every mounted database is
called toc. Removing one overlay removed all of them, and none could be
applied after one had been removed or hidden.
---
 src/fdb5/toc/TocHandler.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 5819535..2aef43c 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -409,6 +409,19 @@ std::pair<size_t, size_t> TocHandler::recordSizes(TocRecord& r, size_t payloadSi
     return {dataSize, r.header_.size_};
 }
 
+namespace {
+
+/// The name by which an entry is masked. Indexes and sub-TOCs are known by their file name alone, such that databases
+/// can be relocated. The TOCs of mounted databases are all called "toc", and need the name of their directory.
+LocalPathName maskName(const LocalPathName& path) {
+    if (path.baseName() == "toc") {
+        return path.dirName().baseName() / "toc";
+    }
+    return path.baseName();
+}
+
+}  // namespace
+
 bool TocHandler::ignoreIndex(const TocRecord& r, bool readMasked) const {
     ASSERT(r.header_.tag_ == TocRecord::TOC_INDEX);
 
@@ -669,7 +682,7 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
         switch (r->header_.tag_) {
             case TocRecord::TOC_SUB_TOC: {
                 s >> path;
-                maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                maskedEntries.emplace(maskName(path), 0);
                 break;
             }
 
@@ -717,7 +730,7 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
 
     // If this subtoc has a masking entry, then skip it, and go on to the next entry.
     // Unless readMasked is true, in which case walk it if it exists.
-    std::pair<eckit::LocalPathName, size_t> key(absPath.baseName(), 0);
+    std::pair<eckit::LocalPathName, size_t> key(maskName(absPath), 0);
     if (maskedEntries_.find(key) != maskedEntries_.end()) {
         if (!readMasked) {
             LOG_DEBUG_LIB(LibFdb5) << "SubToc ignored by mask: " << path << std::endl;
@@ -1003,8 +1016,7 @@ void TocHandler::populateMaskedEntriesList() const {
                     // readNextInternal --> use directory_ not currentDirectory()
                     // ASSERT(path.size() > 0);
                     // eckit::PathName absPath = (path[0] == '/') ? findRealPath(path) : (directory_ / path);
-                    eckit::PathName pathName = path;
-                    maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    maskedEntries_.emplace(maskName(path), offset);
                 }
                 break;
             }
-- 
2.43.0


From fa83e82e335bfefbc7a49a25da01af0053d07d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 62/73] fix: wiping a database deletes no TOC of a database it
 mounts

The TOCs of mounted databases were among the files to delete whenever none
of their indexes were visible, e.g. as their contents were hidden.
---
 src/fdb5/toc/TocCatalogue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..67ccb43 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -235,7 +235,9 @@ void TocCatalogue::finaliseWipeState(CatalogueWipeState& wipeState) const {
     std::set<eckit::URI> controlURIs;
     catalogueURIs.emplace("file", tocPath().path());
     for (const auto& sub : subTocPaths()) {
-        catalogueURIs.emplace("file", sub);
+        if (sub.dirName().sameAs(basePath())) {  // the TOCs of mounted databases are not ours
+            catalogueURIs.emplace("file", sub);
+        }
     }
 
     // schema
-- 
2.43.0


From c186b90b9e4b8b83b3a83dc8689d51bb3a9a463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 63/73] fix: mounted databases can have sub-TOCs and mounts of
 their own

Reading the TOC without hiding these entries (wipe, dump) failed on them.
---
 src/fdb5/toc/TocHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 2aef43c..bbdc46b 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -488,7 +488,7 @@ bool TocHandler::readNext(TocRecord& r, bool walkSubTocs, bool hideSubTocEntries
                 return true;
             }
             else {
-                ASSERT(r.header_.tag_ != TocRecord::TOC_SUB_TOC);
+                ASSERT(!hideSubTocEntries || r.header_.tag_ != TocRecord::TOC_SUB_TOC);
                 return true;
             }
         }
-- 
2.43.0


From 23c3669196a88832fda8dc4e8fb20ae66be2423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 64/73] fix: a wipe that leaves the catalogue in place
 completes

When all of a database's own data went, the store removed the directory they
share, which failed as the catalogue, mounting other databases, had to stay.
The database was left locked.
---
 src/fdb5/toc/TocStore.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 869084e..301e083 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -495,8 +495,13 @@ void TocStore::doWipeEmptyDatabase() const {
 
         eckit::URI uri = this->uri();
 
+        // The catalogue may share the directory, and stay (e.g. where it mounts other databases)
         if (uri.path().exists()) {
-            remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            std::vector<eckit::PathName> remaining;
+            StdDir(uri.path()).children(remaining);
+            if (remaining.empty()) {
+                remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            }
         }
         cleanupEmptyDatabase_ = false;
     }
-- 
2.43.0


From ea02112d8a28b22c5fbc3e15c6ec62724811d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 65/73] fix: wiping a database leaves the data it refers to in
 other databases

The indexes made by re-indexing refer to data of other databases. Wiping them
deleted these files, or failed on the other database's remaining ones.
---
 src/fdb5/api/local/WipeVisitor.cc | 2 +-
 src/fdb5/database/Catalogue.h     | 3 +++
 src/fdb5/toc/TocCatalogue.cc      | 9 ++++++++-
 src/fdb5/toc/TocCatalogue.h       | 1 +
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 8a631c4..03fb5cd 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -99,7 +99,7 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 
     // Enumerate data files
     for (auto& dataURI : index.dataURIs()) {
-        if (include) {
+        if (include && currentCatalogue_->ownsData(dataURI)) {
             catalogueWipeState_->includeData(dataURI);
         }
         else {
diff --git a/src/fdb5/database/Catalogue.h b/src/fdb5/database/Catalogue.h
index 76cb59c..ae864a8 100644
--- a/src/fdb5/database/Catalogue.h
+++ b/src/fdb5/database/Catalogue.h
@@ -111,6 +111,9 @@ public:
     /// Mark an index as to be wiped (include=true) or preserved (include=false)
     virtual bool markIndexForWipe(const Index& index, bool include, CatalogueWipeState& wipeState) const = 0;
 
+    /// Whether the data belongs to this database, rather than being referred to only (e.g. after re-indexing)
+    virtual bool ownsData(const eckit::URI& dataURI) const { return true; }
+
     /// Finish populating the wipe state
     virtual void finaliseWipeState(CatalogueWipeState& wipeState) const = 0;
 
diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 67ccb43..fe07652 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -168,6 +168,11 @@ bool TocCatalogue::markIndexForWipe(const Index& index, bool include, CatalogueW
     return include;
 }
 
+bool TocCatalogue::ownsData(const eckit::URI& dataURI) const {
+    // n.b. catalogue and store may be in different roots
+    return dataURI.scheme() != "file" || dataURI.path().dirName().baseName() == basePath().baseName();
+}
+
 bool TocCatalogue::uriBelongs(const eckit::URI& uri) const {
     if (!uri.path().dirName().sameAs(basePath())) {
         return false;
@@ -224,7 +229,9 @@ void TocCatalogue::addMaskedPaths(CatalogueWipeState& wipeState) const {
     }
 
     for (const auto& datauri : maskedDataURIs) {
-        wipeState.includeData(datauri);
+        if (ownsData(datauri)) {
+            wipeState.includeData(datauri);
+        }
     }
 }
 
diff --git a/src/fdb5/toc/TocCatalogue.h b/src/fdb5/toc/TocCatalogue.h
index 5a33c7f..c12628c 100644
--- a/src/fdb5/toc/TocCatalogue.h
+++ b/src/fdb5/toc/TocCatalogue.h
@@ -83,6 +83,7 @@ protected:  // methods
     // wipe
     CatalogueWipeState wipeInit() const override;
     bool markIndexForWipe(const Index& index, bool include, CatalogueWipeState& wipeState) const override;
+    bool ownsData(const eckit::URI& dataURI) const override;
     void finaliseWipeState(CatalogueWipeState& wipeState) const override;
     bool doWipeUnknowns(const std::set<eckit::URI>& unknownURIs) const override;
     bool doWipeURIs(const CatalogueWipeState& wipeState) const override;
-- 
2.43.0


From 63dc421e8cde432bb5c682f88f3d5c55eafed5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 66/73] fix: comparison of GRIB messages lacking optional
 sections

Identical GRIB1 messages, whose sections carry no numbers, and messages
without bitmap or local section were reported as different (or not
compared) with the methods hash-keys and bit-identical.
---
 src/fdb5/tools/compare/grib/CompareBitwise.cc | 41 ++++++++++---------
 src/fdb5/tools/compare/grib/CompareHash.cc    | 10 +++++
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/fdb5/tools/compare/grib/CompareBitwise.cc b/src/fdb5/tools/compare/grib/CompareBitwise.cc
index c91b9a3..a57d9d0 100644
--- a/src/fdb5/tools/compare/grib/CompareBitwise.cc
+++ b/src/fdb5/tools/compare/grib/CompareBitwise.cc
@@ -37,8 +37,14 @@ struct GribHeaderInfo {
 };
 
 
+/// Number of sections following section 0, without the end section. The first section says which ones are there.
+std::size_t numSectionsGrib1(const uint8_t* buf) {
+    const uint8_t flags = buf[8 + 7];
+    return 2 + ((flags & 0x80) ? 1 : 0) + ((flags & 0x40) ? 1 : 0);
+}
+
 GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
-    if (size < 8) {
+    if (size < 16) {
         throw std::runtime_error("Buffer too small for GRIB");
     }
 
@@ -56,31 +62,26 @@ GribHeaderInfo parseGribHeader(const uint8_t* buf, std::size_t size) {
         total_len = readU24Be(buf + 4);
         offset = 8;  // Section 0 length
 
-        // Sections 1–3 (walk until section 4)
-        while (offset + 3 <= total_len) {
+        // Sections 1–3 (section 4 follows). GRIB1 sections carry no number
+        for (std::size_t i = 1, n = numSectionsGrib1(buf); i < n && offset + 3 <= total_len; ++i) {
             uint32_t sec_len = readU24Be(buf + offset);
-            uint8_t sec_num = buf[offset + 3];
 
             if (sec_len == 0) {
                 throw std::runtime_error("Invalid GRIB1 section length");
             }
 
-            if (sec_num == 4) {
-                // Binary Data Section → header ends here
-                return {offset, total_len, edition};
-            }
-
             offset += sec_len;
         }
 
+        if (offset + 3 <= total_len) {
+            // Binary Data Section → header ends here
+            return {offset, total_len, edition};
+        }
+
         throw std::runtime_error("GRIB1 data section not found");
     }
     else if (edition == 2) {
         // --- GRIB2 ---
-        if (size < 16) {
-            throw std::runtime_error("Buffer too small for GRIB2");
-        }
-
         total_len = readU32Be(buf + 12);
         offset = 16;  // Section 0 length
 
@@ -185,16 +186,18 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
         eckit::Log::error() << "[GRIB COMPARISON MISMATCH] Unknown Grib edition number " << editionnumber1 << std::endl;
         return CompareResult::OtherMismatch;
     }
-    // Determine number of sections based on the edition number 1 or 2
-    int numSections = (editionnumber1 == 1) ? 4 : 7;
+    // Process sections based on edition. Some sections are optional: the end section follows the last one
+    const bool grib1 = editionnumber1 == 1;
+    const int numSections1 = grib1 ? static_cast<int>(numSectionsGrib1(buffer1)) : 0;
 
-    // Process sections based on edition
-    for (int i = 0; i < numSections; ++i) {
+    for (int i = 0; grib1 ? i < numSections1 : length - offset > 4; ++i) {
         // Read section length
         uint32_t sectionLength1 = 0;
         uint32_t sectionLength2 = 0;
 
-        const auto errCode = i < (numSections - 1) ? CompareResult::OtherMismatch : CompareResult::DataSectionMismatch;
+        // Grib 2 stores the number of the section after its length
+        const bool dataSection = grib1 ? i == numSections1 - 1 : length - offset > 5 && buffer1[offset + 4] == 7;
+        const auto errCode     = dataSection ? CompareResult::DataSectionMismatch : CompareResult::OtherMismatch;
         if (editionnumber1 == 1) {
             // Grib 1 Read 3 byte section length at the beginning of each section
             if (offset + 3 > length) {
@@ -222,7 +225,7 @@ CompareResult bitComparison(const uint8_t* buffer1, const uint8_t* buffer2, size
                                << " length parameter differs between the grib messages " << std::endl;
             return errCode;
         }
-        if (offset + sectionLength1 >= length) {
+        if (sectionLength1 == 0 || offset + sectionLength1 >= length) {
             eckit::Log::info()
                 << "[GRIB COMPARISON MISMATCH] Corrupted grib - sections lengths exceed total length at section "
                 << i + 1 << std::endl;
diff --git a/src/fdb5/tools/compare/grib/CompareHash.cc b/src/fdb5/tools/compare/grib/CompareHash.cc
index 604bfdc..1da0cb5 100644
--- a/src/fdb5/tools/compare/grib/CompareHash.cc
+++ b/src/fdb5/tools/compare/grib/CompareHash.cc
@@ -62,6 +62,16 @@ CompareResult compareMd5sums(const metkit::codes::CodesHandle& h1, const metkit:
     }
 
     for (const auto& value : makeGribMD5Sections(gribEdition1)) {
+        // Sections are optional, e.g. the bitmap of GRIB1
+        const bool defined1 = h1.isDefined(value);
+        const bool defined2 = h2.isDefined(value);
+        if (!defined1 || !defined2) {
+            if (defined1 != defined2) {
+                return CompareResult::OtherMismatch;
+            }
+            continue;
+        }
+
         auto md5HashValueRef = h1.getString(value);
         auto md5HashValueTest = h2.getString(value);
 
-- 
2.43.0


From 41351a6b63c1d10cfcaafea46a20a135f2d0a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 67/73] fix: fdb-compare ignores messages with any of the pairs
 of mars-keys-ignore

---
 src/fdb5/tools/compare/common/Types.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/tools/compare/common/Types.cc b/src/fdb5/tools/compare/common/Types.cc
index 0ab2546..864fa53 100644
--- a/src/fdb5/tools/compare/common/Types.cc
+++ b/src/fdb5/tools/compare/common/Types.cc
@@ -229,14 +229,14 @@ void Result::update(const Result& other) {
 //---------------------------------------------------------------------------------------------------------------------
 
 
-bool isSubset(const fdb5::Key& a, const fdb5::Key& b) {
+bool containsAny(const fdb5::Key& a, const fdb5::Key& b) {
     for (const auto& kv : a) {
         auto [it, isValid] = b.find(kv.first);
-        if (!isValid || it->second != kv.second) {
-            return false;
+        if (isValid && it->second == kv.second) {
+            return true;
         }
     }
-    return true;
+    return false;
 }
 
 
@@ -248,7 +248,7 @@ DataIndex assembleCompareMap(fdb5::FDB& fdb, const fdb5::FDBToolRequest& req, co
 
     while (list.next(elem)) {
         fdb5::Key km = elem.combinedKey();
-        if (ignore.empty() || !isSubset(ignore, km)) {
+        if (!containsAny(ignore, km)) {
             out.emplace(km, elem);
         }
     }
-- 
2.43.0


From 5c347dd916e85579fe08377276a75efae1ed439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 68/73] fix: fdb-read and fdb-copy fail if the request file
 cannot be read

---
 src/fdb5/tools/fdb-copy.cc | 4 ++--
 src/fdb5/tools/fdb-read.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/tools/fdb-copy.cc b/src/fdb5/tools/fdb-copy.cc
index 107fd74..19c4bcd 100644
--- a/src/fdb5/tools/fdb-copy.cc
+++ b/src/fdb5/tools/fdb-copy.cc
@@ -116,9 +116,9 @@ static std::vector<metkit::mars::MarsRequest> readRequestsFromFile(const CmdArgs
     for (size_t i = 0; i < args.count(); ++i) {
 
         std::ifstream in(args(i).c_str());
-        if (in.bad()) {
+        if (!in) {
             std::ostringstream msg;
-            msg << "Failed to read request file " << args(0);
+            msg << "Failed to read request file " << args(i);
             throw eckit::ReadError(msg.str());
         }
 
diff --git a/src/fdb5/tools/fdb-read.cc b/src/fdb5/tools/fdb-read.cc
index 1c1516d..33c8944 100644
--- a/src/fdb5/tools/fdb-read.cc
+++ b/src/fdb5/tools/fdb-read.cc
@@ -66,7 +66,7 @@ void FDBRead::execute(const eckit::option::CmdArgs& args) {
     }
     else {
         std::ifstream in(args(0).c_str());
-        if (in.bad()) {
+        if (!in) {
             throw eckit::ReadError(args(0));
         }
 
-- 
2.43.0


From b8c86b4fe1327e41b9ad89b6340fc108feb3e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 69/73] fix: flags of the root apply to databases that are not
 there yet

A root chosen for a database was used as if it had no flags: archived to
although archiving is disabled (expver table), read although it must not
be retrieved from.
---
 src/fdb5/toc/FileSpace.cc | 12 +++++++++++-
 src/fdb5/toc/FileSpace.h  |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/FileSpace.cc b/src/fdb5/toc/FileSpace.cc
index 8fa31b0..206e30a 100644
--- a/src/fdb5/toc/FileSpace.cc
+++ b/src/fdb5/toc/FileSpace.cc
@@ -52,7 +52,17 @@ TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit:
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
 
-    return TocPath{FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this) / db, ControlIdentifiers{}};
+    const eckit::PathName root = FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this);
+    return TocPath{root / db, controlIdentifiers(root)};
+}
+
+ControlIdentifiers FileSpace::controlIdentifiers(const eckit::PathName& root) const {
+    for (const Root& r : roots_) {
+        if (r.path() == root) {
+            return r.controlIdentifiers();
+        }
+    }
+    return ControlIdentifiers{};
 }
 
 std::vector<eckit::PathName> FileSpace::enabled(const ControlIdentifier& controlIdentifier) const {
diff --git a/src/fdb5/toc/FileSpace.h b/src/fdb5/toc/FileSpace.h
index 654e7f5..3142248 100644
--- a/src/fdb5/toc/FileSpace.h
+++ b/src/fdb5/toc/FileSpace.h
@@ -57,6 +57,9 @@ public:  // methods
     void enabled(const ControlIdentifier& controlIdentifier, eckit::StringSet&) const;
     std::vector<eckit::PathName> enabled(const ControlIdentifier& controlIdentifier) const;
 
+    /// The operations disabled in a root
+    ControlIdentifiers controlIdentifiers(const eckit::PathName& root) const;
+
     bool match(const std::string& s) const;
 
     friend std::ostream& operator<<(std::ostream& s, const FileSpace& x) {
-- 
2.43.0


From e5b88879d0569d7bda1acd803b603308cff39ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 70/73] fix: requests lacking database keys look into spaces
 restricted by a regular expression

The values of an incomplete key were matched with the regular expression,
which leaves out spaces that hold matching databases.
---
 src/fdb5/toc/RootManager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 1fe96dc..9df3b06 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -628,7 +628,9 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
     std::set<std::string> keystrings;
     for (const auto& key : keys) {
-        keystrings.insert(key.valuesToString());
+        // A space cannot be excluded by a key lacking some values
+        const bool partial = std::any_of(key.begin(), key.end(), [](const auto& kv) { return kv.second.empty(); });
+        keystrings.insert(partial ? std::string{} : key.valuesToString());
     }
 
     LOG_DEBUG_LIB(LibFdb5) << "RootManager::visitableRoots() trying to match keys " << keystrings << std::endl;
-- 
2.43.0


From 71a6e879532f9fccf9ee4172742efb30771bd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 71/73] fix: databases are not wiped in roots that disable
 wiping

Wiping visits the databases by their paths, without the flags of the root.
---
 src/fdb5/toc/RootManager.cc  | 10 ++++++++++
 src/fdb5/toc/RootManager.h   |  3 +++
 src/fdb5/toc/TocCatalogue.cc |  7 ++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 9df3b06..aadb939 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -622,6 +622,16 @@ TocPath RootManager::directory(const Key& key) {
     throw eckit::SeriousBug(oss.str());
 }
 
+ControlIdentifiers RootManager::controlIdentifiers(const Key& key, const eckit::PathName& root) const {
+    const std::string keystr = key.valuesToString();
+    for (const auto& space : spacesTable_) {
+        if (space.match(keystr)) {
+            return space.controlIdentifiers(root);
+        }
+    }
+    return ControlIdentifiers{};
+}
+
 std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
     eckit::StringSet roots;
diff --git a/src/fdb5/toc/RootManager.h b/src/fdb5/toc/RootManager.h
index c4419c6..c55ebe2 100644
--- a/src/fdb5/toc/RootManager.h
+++ b/src/fdb5/toc/RootManager.h
@@ -60,6 +60,9 @@ public:  // methods
     std::vector<eckit::PathName> canArchiveRoots(const Key& key);
     std::vector<eckit::PathName> canMoveToRoots(const Key& key);
 
+    /// The operations that the configuration disables for a database in a root
+    ControlIdentifiers controlIdentifiers(const Key& key, const eckit::PathName& root) const;
+
     std::string dbPathName(const Key& key);
 
     std::vector<std::string> possibleDbPathNames(const Key& key, const char* missing);
diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index fe07652..94fedf0 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -137,7 +137,12 @@ void TocCatalogue::control(const ControlAction& action, const ControlIdentifiers
 }
 
 bool TocCatalogue::enabled(const ControlIdentifier& controlIdentifier) const {
-    return CatalogueImpl::enabled(controlIdentifier) && TocHandler::enabled(controlIdentifier);
+    if (!CatalogueImpl::enabled(controlIdentifier) || !TocHandler::enabled(controlIdentifier)) {
+        return false;
+    }
+    // A database visited by its path does not know the flags of its root
+    return controlIdentifier != ControlIdentifier::Wipe ||
+           CatalogueRootManager(config_).controlIdentifiers(key(), basePath().dirName()).enabled(controlIdentifier);
 }
 
 
-- 
2.43.0


From 34b51c7a2a5d571e6bcfb0b6db3ee6e3b8a23134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 72/73] fix: pyfdb reads data only into writable, contiguous
 buffers

Data was written in one piece to the start of the buffer given to
DataHandle.readinto, whatever its strides, so that slices with a step
had their gaps overwritten and reversed ones the memory behind them.
---
 src/pyfdb_bindings/bindings.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyfdb_bindings/bindings.cc b/src/pyfdb_bindings/bindings.cc
index 234367e..8b9f84a 100644
--- a/src/pyfdb_bindings/bindings.cc
+++ b/src/pyfdb_bindings/bindings.cc
@@ -181,8 +181,12 @@ PYBIND11_MODULE(pyfdb_bindings, m) {
         .def("size", [](eckit::DataHandle& data_handle) { return static_cast<long long>(data_handle.size()); })
         .def("read",
              [](eckit::DataHandle& data_handle, py::buffer& buffer) {
-                 py::buffer_info info = buffer.request();
-                 return data_handle.read(info.ptr, info.size);
+                 // The data is written to memory in one piece: the buffer has to be writable and contiguous
+                 py::buffer_info info = buffer.request(true);
+                 if (!PyBuffer_IsContiguous(info.view(), 'C')) {
+                     throw py::buffer_error("DataHandle: the buffer to read into is not contiguous");
+                 }
+                 return data_handle.read(info.ptr, info.size * info.itemsize);
              })
         .def("__repr__", [](eckit::DataHandle& data_handle) {
             std::stringstream buf;
-- 
2.43.0


From 281cd2b6631b29c73389b917b62ce7635f60e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 73/73] fix: chunked view refuses parts whose fields differ in
 size

---
 src/chunked_data_view/ChunkedDataViewImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chunked_data_view/ChunkedDataViewImpl.cc b/src/chunked_data_view/ChunkedDataViewImpl.cc
index 2e11627..185657a 100644
--- a/src/chunked_data_view/ChunkedDataViewImpl.cc
+++ b/src/chunked_data_view/ChunkedDataViewImpl.cc
@@ -81,6 +81,10 @@ ChunkedDataViewImpl::ChunkedDataViewImpl(std::vector<std::pair<ViewPart, std::sh
         size_t extensionOnExtensionAxis = 0;
 
         for (const auto& [part, _] : parts_) {
+            if (part.layout().countValues != first_part.layout().countValues) {
+                throw eckit::UserError(
+                    "ChunkedDataViewImpl: Field size mismatch. The fields of all parts need to be of equal size.");
+            }
             for (size_t idx = 0; idx < chunkedDataViewShape_.size(); ++idx) {
                 if (idx == extensionAxisIndex_) {
                     extensionOnExtensionAxis += part.extension()[idx];
-- 
2.43.0

