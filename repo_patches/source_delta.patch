From 67e7e5e95a7307294bc9da8b2e5e159a5bf246bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 01/42] fix: report a failed sync of segments_N instead of
 swallowing it

SegmentInfos::finishCommit deleted the unsynced segments_N file and then
went on as if the commit had succeeded.
---
 src/core/index/SegmentInfos.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..4555eec 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -599,12 +599,18 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
     try {
         dir->sync(fileName);
         success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
     if (!success) {
-        dir->deleteFile(fileName);
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+            // Suppress so we keep throwing the original exception
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 347b45aa55602b6d7e7daf05be4172bd97cac024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 02/42] fix: do not take an I/O error for a missing index

SegmentInfos::getCurrentSegmentGeneration answered "no index" for every
error listing the directory, not only for a directory that does not exist.
---
 src/core/index/SegmentInfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 4555eec..773256a 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -94,7 +94,7 @@ int64_t SegmentInfos::getCurrentSegmentGeneration(HashSet<String> files) {
 int64_t SegmentInfos::getCurrentSegmentGeneration(const DirectoryPtr& directory) {
     try {
         return getCurrentSegmentGeneration(directory->listAll());
-    } catch (LuceneException&) {
+    } catch (NoSuchDirectoryException&) {
         return -1;
     }
 }
-- 
2.43.0


From 4bc46be1aab18ff0de110a82bf0db36ad00b6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 03/42] fix: Directory::copy must report a destination file it
 could not close

Closing flushes the last buffered bytes, so ignoring the error left a
truncated copy behind without telling the caller.
---
 src/core/store/Directory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/store/Directory.cpp b/src/core/store/Directory.cpp
index f7a6c4b..4ca57c5 100644
--- a/src/core/store/Directory.cpp
+++ b/src/core/store/Directory.cpp
@@ -96,7 +96,10 @@ void Directory::copy(const DirectoryPtr& src, const DirectoryPtr& dest, bool clo
             if (os) {
                 os->close();
             }
-        } catch (...) {
+        } catch (LuceneException& e) {
+            if (finally.isNull()) {
+                finally = e;
+            }
         }
         try {
             if (is) {
-- 
2.43.0


From ed8b1bad8748c2090ac84cc48979469e186a8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 04/42] fix: SimpleFSIndexOutput must not ignore failed writes

A full disk, or a file that could not be created, lost data silently.
---
 src/core/store/SimpleFSDirectory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 88d3949..ec3bded 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -211,8 +211,13 @@ SimpleFSIndexOutput::~SimpleFSIndexOutput() {
 }
 
 void SimpleFSIndexOutput::flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
-    file->write(b, offset, length);
+    if (!file->write(b, offset, length)) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
     file->flush();
+    if (!file->isValid()) {
+        boost::throw_exception(IOException(L"Flush failure"));
+    }
 }
 
 void SimpleFSIndexOutput::close() {
-- 
2.43.0


From 8a4a28cb11d4a77bfbc79821071fb5df1136ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 05/42] fix: SimpleFSIndexInput must not loop for ever on a
 read error

InputFile::read returns 0 or FILE_ERROR when the read fails, which was
added to the number of bytes read.
---
 src/core/store/SimpleFSDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index ec3bded..e1f3f1a 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -119,7 +119,7 @@ void SimpleFSIndexInput::readInternal(uint8_t* b, int32_t offset, int32_t length
         int32_t readLength = total + chunkSize > length ? length - total : chunkSize;
 
         int32_t i = file->read(b, offset + total, readLength);
-        if (i == InputFile::FILE_EOF) {
+        if (i <= 0) {
             boost::throw_exception(IOException(L"Read past EOF"));
         }
         total += i;
-- 
2.43.0


From b2f257b36c72b3ebcd531562cb1e130634565be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 06/42] fix: report a failure to set the length of a file

---
 src/core/store/SimpleFSDirectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index e1f3f1a..c3fcfbf 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -189,7 +189,9 @@ int64_t OutputFile::getLength() {
 }
 
 void OutputFile::setLength(int64_t length) {
-    FileUtils::setFileLength(path, length);
+    if (!FileUtils::setFileLength(path, length)) {
+        boost::throw_exception(IOException(L"Set length failure: " + path));
+    }
 }
 
 void OutputFile::flush() {
-- 
2.43.0


From 9c10109d27eb81af3cee12f4e821ff4207492af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 07/42] fix: stop waiting for a file whose sync failed in
 another thread

The parameter of waitForAllSynced hid the member of the same name, so the
test for a failed sync could never be true and commit waited for ever.
---
 include/lucene++/IndexWriter.h | 2 +-
 src/core/index/IndexWriter.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index 5ace809..cfff12b 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -1078,7 +1078,7 @@ protected:
     virtual void finishSync(const String& fileName, bool success);
 
     /// Blocks until all files in syncing are sync'd
-    bool waitForAllSynced(HashSet<String> syncing);
+    bool waitForAllSynced(HashSet<String> pending);
     void doWait();
 
     /// Walk through all files referenced by the current segmentInfos and ask the Directory to sync each
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..301278e 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3080,9 +3080,9 @@ void IndexWriter::finishSync(const String& fileName, bool success) {
     synced.notifyAll();
 }
 
-bool IndexWriter::waitForAllSynced(HashSet<String> syncing) {
+bool IndexWriter::waitForAllSynced(HashSet<String> pending) {
     SyncLock syncedLock(&synced);
-    for (HashSet<String>::iterator fileName = syncing.begin(); fileName != syncing.end(); ++fileName) {
+    for (HashSet<String>::iterator fileName = pending.begin(); fileName != pending.end(); ++fileName) {
         while (!synced.contains(*fileName)) {
             if (!syncing.contains(*fileName)) {
                 // There was an error because a file that was previously syncing failed to appear in synced
-- 
2.43.0


From 88194edf2e0ead0b1f6b9ffad80563e0f1035d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 08/42] fix: report a document that was dropped by an aborting
 failure

DocumentsWriter::updateDocument returned normally after aborting.
---
 src/core/index/DocumentsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/DocumentsWriter.cpp b/src/core/index/DocumentsWriter.cpp
index 67d107e..a98f58a 100644
--- a/src/core/index/DocumentsWriter.cpp
+++ b/src/core/index/DocumentsWriter.cpp
@@ -698,7 +698,7 @@ bool DocumentsWriter::updateDocument(const DocumentPtr& doc, const AnalyzerPtr&
                 state->isIdle = true;
                 notifyAll();
                 abort();
-                return false;
+                finally.throwException();
             }
 
             state->isIdle = true;
-- 
2.43.0


From 5b3a5b0a165d8b993e8fc4c458a4b0c2ad1b9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 09/42] fix: release the write gate when committing an
 addIndexes transaction fails

---
 src/core/index/IndexWriter.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 301278e..b96782c 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1405,17 +1405,23 @@ void IndexWriter::commitTransaction() {
         message(L"now commit transaction");
     }
 
-    // Give deleter a chance to remove files now
-    checkpoint();
+    LuceneException finally;
+    try {
+        // Give deleter a chance to remove files now
+        checkpoint();
 
-    // Remove the incRef we did in startTransaction.
-    deleter->decRef(localRollbackSegmentInfos);
+        // Remove the incRef we did in startTransaction.
+        deleter->decRef(localRollbackSegmentInfos);
 
-    localRollbackSegmentInfos.reset();
+        localRollbackSegmentInfos.reset();
 
-    BOOST_ASSERT(!hasExternalSegments());
+        BOOST_ASSERT(!hasExternalSegments());
+    } catch (LuceneException& e) {
+        finally = e;
+    }
 
     finishAddIndexes();
+    finally.throwException();
 }
 
 void IndexWriter::rollback() {
-- 
2.43.0


From 40e90c5ee94032ab4e32d82407f7ece8a34a868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 10/42] fix: let indexing threads continue when closing after a
 rollback fails

IndexWriter::rollbackInternal left the threads paused for ever.
---
 src/core/index/IndexWriter.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index b96782c..7f07aa1 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1502,7 +1502,19 @@ void IndexWriter::rollbackInternal() {
     }
     finally.throwException();
 
-    closeInternal(false);
+    try {
+        closeInternal(false);
+    } catch (LuceneException& e) {
+        finally = e;
+    }
+    if (!finally.isNull()) {
+        // The writer stays open, so undo the pause above
+        SyncLock syncLock(this);
+        if (docWriter) {
+            docWriter->resumeAllThreads();
+        }
+    }
+    finally.throwException();
 }
 
 void IndexWriter::deleteAll() {
-- 
2.43.0


From b1f057538faa50905f0a1a2d80cb371d64180cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 11/42] fix: do not drop a commit point because of an
 unexpected error

IndexFileDeleter skipped a commit it could not load for any reason (out of
memory, say), and then deleted the files only that commit referred to.
---
 src/core/index/IndexFileDeleter.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index cb30e2f..6b915fa 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -70,11 +70,6 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
                         // so suppress exc in this case
                         sis.reset();
                     }
-                } catch (...) {
-                    if (infoStream) {
-                        message(L"init: hit exception when loading commit \"" + *fileName + L"\"; skipping this commit point");
-                    }
-                    sis.reset();
                 }
                 if (sis) {
                     CommitPointPtr commitPoint(newLucene<CommitPoint>(commitsToDelete, directory, sis));
-- 
2.43.0


From 3c09e67bfc4da0c92655195cb21da2e51ee830f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 12/42] fix: compare the bytes that belong to the payload

Payload::equals ignored the offset of the payload in its array, although
hashCode and all other members honour it.
---
 src/core/index/Payload.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/Payload.cpp b/src/core/index/Payload.cpp
index 1b01e97..b0a7169 100644
--- a/src/core/index/Payload.cpp
+++ b/src/core/index/Payload.cpp
@@ -104,7 +104,7 @@ bool Payload::equals(const LuceneObjectPtr& other) {
     PayloadPtr otherPayload(boost::dynamic_pointer_cast<Payload>(other));
     if (otherPayload) {
         if (_length == otherPayload->_length) {
-            return (std::memcmp(data.get(), otherPayload->data.get(), _length) == 0);
+            return (std::memcmp(data.get() + offset, otherPayload->data.get() + otherPayload->offset, _length) == 0);
         } else {
             return false;
         }
-- 
2.43.0


From 9121b4da57a9458b6b0ae87365819d359ccde330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 13/42] fix: tell match-all queries with different norms fields
 apart

MatchAllDocsQuery::equals ignored the field whose norms give the scores.
---
 src/core/search/MatchAllDocsQuery.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/search/MatchAllDocsQuery.cpp b/src/core/search/MatchAllDocsQuery.cpp
index 8b0364c..6419c9d 100644
--- a/src/core/search/MatchAllDocsQuery.cpp
+++ b/src/core/search/MatchAllDocsQuery.cpp
@@ -37,7 +37,11 @@ String MatchAllDocsQuery::toString(const String& field) {
 }
 
 bool MatchAllDocsQuery::equals(const LuceneObjectPtr& other) {
-    return Query::equals(other);
+    if (!Query::equals(other)) {
+        return false;
+    }
+    MatchAllDocsQueryPtr otherQuery(boost::dynamic_pointer_cast<MatchAllDocsQuery>(other));
+    return otherQuery && normsField == otherQuery->normsField;
 }
 
 int32_t MatchAllDocsQuery::hashCode() {
-- 
2.43.0


From af045020d7c9229c9964e208c673dc30e6f73150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:08 +0000
Subject: [PATCH 14/42] fix: a copy of a span-near query keeps its payload
 setting

---
 src/core/search/spans/SpanNearQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/spans/SpanNearQuery.cpp b/src/core/search/spans/SpanNearQuery.cpp
index 0c95d8d..db02e1b 100644
--- a/src/core/search/spans/SpanNearQuery.cpp
+++ b/src/core/search/spans/SpanNearQuery.cpp
@@ -109,7 +109,7 @@ LuceneObjectPtr SpanNearQuery::clone(const LuceneObjectPtr& other) {
         newClauses[i] = boost::dynamic_pointer_cast<SpanQuery>(clauses[i]->clone());
     }
 
-    SpanNearQueryPtr spanNearQuery(newLucene<SpanNearQuery>(newClauses, slop, inOrder));
+    SpanNearQueryPtr spanNearQuery(newLucene<SpanNearQuery>(newClauses, slop, inOrder, collectPayloads));
     spanNearQuery->setBoost(getBoost());
     return spanNearQuery;
 }
-- 
2.43.0


From 4c1a170027f34773b78e8a75fc3af32e223896be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 15/42] fix: a copy of a payload-near query keeps its payload
 function

---
 src/core/search/payloads/PayloadNearQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/payloads/PayloadNearQuery.cpp b/src/core/search/payloads/PayloadNearQuery.cpp
index 7283a02..669bce6 100644
--- a/src/core/search/payloads/PayloadNearQuery.cpp
+++ b/src/core/search/payloads/PayloadNearQuery.cpp
@@ -41,7 +41,7 @@ LuceneObjectPtr PayloadNearQuery::clone(const LuceneObjectPtr& other) {
         newClauses[i] = boost::dynamic_pointer_cast<SpanQuery>(clauses[i]->clone());
     }
 
-    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder));
+    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder, function));
     payloadNearQuery->setBoost(getBoost());
     return payloadNearQuery;
 }
-- 
2.43.0


From b8c9cecca7a4e764b5716cba0c5986381f67b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:16 +0000
Subject: [PATCH 16/42] fix: start a stored token stream at its first token

---
 src/contrib/highlighter/TokenSources.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/contrib/highlighter/TokenSources.cpp b/src/contrib/highlighter/TokenSources.cpp
index 9810f33..7c54e40 100644
--- a/src/contrib/highlighter/TokenSources.cpp
+++ b/src/contrib/highlighter/TokenSources.cpp
@@ -154,6 +154,7 @@ TokenStreamPtr TokenSources::getTokenStream(const String& field, const String& c
 
 StoredTokenStream::StoredTokenStream(Collection<TokenPtr> tokens) {
     this->tokens = tokens;
+    this->currentToken = 0;
     this->termAtt = addAttribute<TermAttribute>();
     this->offsetAtt = addAttribute<OffsetAttribute>();
 }
-- 
2.43.0


From ef813d67e34552b46a7202d16428db55981d533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:16 +0000
Subject: [PATCH 17/42] fix: explain the idf of a query without terms with
 defined values

---
 src/core/search/Similarity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/search/Similarity.cpp b/src/core/search/Similarity.cpp
index 3df64e5..8faf103 100644
--- a/src/core/search/Similarity.cpp
+++ b/src/core/search/Similarity.cpp
@@ -97,6 +97,8 @@ SimilarityIDFExplanation::SimilarityIDFExplanation(int32_t df, int32_t max, doub
 }
 
 SimilarityIDFExplanation::SimilarityIDFExplanation(const String& exp, double idf) {
+    this->df = 0;
+    this->max = 0;
     this->exp = exp;
     this->idf = idf;
 }
-- 
2.43.0


From 0805e306c7f074f33c10e80ca109c00b5b8b6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 18/42] fix: refuse deleteAll and RAM buffer settings on a
 closed writer

---
 src/core/index/IndexWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 7f07aa1..569fd85 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -563,6 +563,7 @@ int32_t IndexWriter::getMaxBufferedDocs() {
 }
 
 void IndexWriter::setRAMBufferSizeMB(double mb) {
+    ensureOpen();
     if (mb > 2048.0) {
         boost::throw_exception(IllegalArgumentException(L"ramBufferSize " + StringUtils::toString(mb) + L" is too large; should be comfortably less than 2048"));
     }
@@ -579,6 +580,7 @@ void IndexWriter::setRAMBufferSizeMB(double mb) {
 }
 
 double IndexWriter::getRAMBufferSizeMB() {
+    ensureOpen();
     return docWriter->getRAMBufferSizeMB();
 }
 
@@ -1519,6 +1521,7 @@ void IndexWriter::rollbackInternal() {
 
 void IndexWriter::deleteAll() {
     SyncLock syncLock(this);
+    ensureOpen();
     bool success = false;
     docWriter->pauseAllThreads();
     LuceneException finally;
-- 
2.43.0


From d79a51f858489ed79129d84d4bf278d8dfa7954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 19/42] fix: only one holder can create a simple file lock

---
 src/core/store/SimpleFSLockFactory.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/core/store/SimpleFSLockFactory.cpp b/src/core/store/SimpleFSLockFactory.cpp
index fcbbc61..f97c229 100644
--- a/src/core/store/SimpleFSLockFactory.cpp
+++ b/src/core/store/SimpleFSLockFactory.cpp
@@ -5,7 +5,8 @@
 /////////////////////////////////////////////////////////////////////////////
 
 #include "LuceneInc.h"
-#include <boost/filesystem/fstream.hpp>
+#include <boost/filesystem/path.hpp>
+#include <cstdio>
 #include "SimpleFSLockFactory.h"
 #include "_SimpleFSLockFactory.h"
 #include "FileUtils.h"
@@ -53,12 +54,22 @@ bool SimpleFSLock::obtain() {
     } else if (!FileUtils::isDirectory(lockDir)) {
         boost::throw_exception(RuntimeException(L"Found regular file where directory expected: " + lockDir));
     }
-    boost::filesystem::ofstream f;
-    try {
-        f.open(FileUtils::joinPath(lockDir, lockFile), std::ios::binary | std::ios::out);
-    } catch (...) {
+    // the lock file must not exist yet: creating it is what decides who holds the lock
+    boost::filesystem::path path(FileUtils::joinPath(lockDir, lockFile));
+#if defined(_WIN32) || defined(_WIN64)
+    HANDLE f = ::CreateFileW(path.c_str(), GENERIC_WRITE, 0, NULL, CREATE_NEW, FILE_ATTRIBUTE_NORMAL, NULL);
+    if (f == INVALID_HANDLE_VALUE) {
+        return false;
     }
-    return f.is_open();
+    ::CloseHandle(f);
+#else
+    FILE* f = ::fopen(path.c_str(), "wx");
+    if (!f) {
+        return false;
+    }
+    ::fclose(f);
+#endif
+    return true;
 }
 
 void SimpleFSLock::release() {
-- 
2.43.0


From 30ca82985c0455441ad3d206c9c2d2dc7c6ace4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 20/42] fix: keep the native file lock that was obtained, and
 do not block for it

---
 src/core/store/NativeFSLockFactory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 2ba0471..b84d9ab 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -112,6 +112,9 @@ bool NativeFSLock::obtain() {
         boost::filesystem::ofstream f(path, std::ios::binary | std::ios::out);
 
         if (f.is_open()) {
+            // closing any descriptor of the file gives up a lock on it, so close this one before locking
+            f.close();
+
             std::string lockpath;
 
             // file_lock only accepts char* filenames and we cannot losslessly convert Unicode paths to
@@ -126,7 +129,9 @@ bool NativeFSLock::obtain() {
                 lockpath = boost::filesystem::path(path).string();
             }
             lock = newInstance<boost::interprocess::file_lock>(lockpath.c_str());
-            lock->lock();
+            if (!lock->try_lock()) {
+                lock.reset();
+            }
         }
     } catch (...) {
         lock.reset();
-- 
2.43.0


From e8821c1e9cdd91c7d52fe4df2ec98d7578a9409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 21/42] fix: let all locks of a single-instance factory share
 one mutex

---
 src/core/store/SingleInstanceLockFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/store/SingleInstanceLockFactory.cpp b/src/core/store/SingleInstanceLockFactory.cpp
index f3f398b..2039be4 100644
--- a/src/core/store/SingleInstanceLockFactory.cpp
+++ b/src/core/store/SingleInstanceLockFactory.cpp
@@ -12,6 +12,7 @@ namespace Lucene {
 
 SingleInstanceLockFactory::SingleInstanceLockFactory() {
     locks = HashSet<String>::newInstance();
+    locks.getSync(); // copies of the set share its lock only if it exists when they are made
 }
 
 SingleInstanceLockFactory::~SingleInstanceLockFactory() {
-- 
2.43.0


From b1ea29ada0c4eac4405b8846d4df2664340778a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 22/42] fix: the file deleter and the writer guard the synced
 files with one lock

---
 src/core/index/IndexWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 569fd85..98b2885 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -134,6 +134,7 @@ void IndexWriter::initialize() {
     mergingSegments = SetSegmentInfo::newInstance();
     runningMerges = SetOneMerge::newInstance();
     synced = HashSet<String>::newInstance();
+    synced.getSync(); // the file deleter shares this set, and has to share its lock
     syncing = HashSet<String>::newInstance();
     changeCount = 0;
     lastCommitChangeCount = 0;
-- 
2.43.0


From c24c9a1b4e98b6084e304922229aca82fe81a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 23/42] fix: a cloned phrase query has term lists of its own

---
 src/core/search/MultiPhraseQuery.cpp | 4 ++--
 src/core/search/PhraseQuery.cpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/search/MultiPhraseQuery.cpp b/src/core/search/MultiPhraseQuery.cpp
index e896824..7e477d6 100644
--- a/src/core/search/MultiPhraseQuery.cpp
+++ b/src/core/search/MultiPhraseQuery.cpp
@@ -176,8 +176,8 @@ LuceneObjectPtr MultiPhraseQuery::clone(const LuceneObjectPtr& other) {
     LuceneObjectPtr clone = other ? other : newLucene<MultiPhraseQuery>();
     MultiPhraseQueryPtr cloneQuery(boost::dynamic_pointer_cast<MultiPhraseQuery>(Query::clone(clone)));
     cloneQuery->field = field;
-    cloneQuery->termArrays = termArrays;
-    cloneQuery->positions = positions;
+    cloneQuery->termArrays = Collection< Collection<TermPtr> >::newInstance(termArrays.begin(), termArrays.end());
+    cloneQuery->positions = Collection<int32_t>::newInstance(positions.begin(), positions.end());
     cloneQuery->slop = slop;
     return cloneQuery;
 }
diff --git a/src/core/search/PhraseQuery.cpp b/src/core/search/PhraseQuery.cpp
index d31c02a..a1857af 100644
--- a/src/core/search/PhraseQuery.cpp
+++ b/src/core/search/PhraseQuery.cpp
@@ -139,8 +139,8 @@ LuceneObjectPtr PhraseQuery::clone(const LuceneObjectPtr& other) {
     LuceneObjectPtr clone = other ? other : newLucene<PhraseQuery>();
     PhraseQueryPtr cloneQuery(boost::dynamic_pointer_cast<PhraseQuery>(Query::clone(clone)));
     cloneQuery->field = field;
-    cloneQuery->terms = terms;
-    cloneQuery->positions = positions;
+    cloneQuery->terms = Collection<TermPtr>::newInstance(terms.begin(), terms.end());
+    cloneQuery->positions = Collection<int32_t>::newInstance(positions.begin(), positions.end());
     cloneQuery->maxPosition = maxPosition;
     cloneQuery->slop = slop;
     return cloneQuery;
-- 
2.43.0


From 467dd1257baf8e04902973420f234583eb9ff9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 24/42] fix: release the files of the merged segment when
 addIndexes cannot start its second transaction

---
 src/core/index/IndexWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 98b2885..ba5ecda 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1942,7 +1942,14 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
             if (files) {
                 success = false;
 
-                startTransaction(false);
+                try {
+                    startTransaction(false);
+                } catch (LuceneException& e) {
+                    finally = e;
+                    SyncLock syncLock(this);
+                    deleter->decRef(files);
+                }
+                finally.throwException();
 
                 try {
                     merger->createCompoundFile(mergedName + L".cfs");
-- 
2.43.0


From e7f96e1c0f3bd7b2899f334c1f31df8006161d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:20 +0000
Subject: [PATCH 25/42] fix: a thread that waits on an object cannot miss the
 notification it waits for

---
 src/core/util/LuceneSignal.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/util/LuceneSignal.cpp b/src/core/util/LuceneSignal.cpp
index e2aef40..0a69a65 100644
--- a/src/core/util/LuceneSignal.cpp
+++ b/src/core/util/LuceneSignal.cpp
@@ -26,19 +26,22 @@ void LuceneSignal::createSignal(LuceneSignalPtr& signal, const SynchronizePtr& o
 }
 
 void LuceneSignal::wait(int32_t timeout) {
-    int32_t relockCount = objectLock ? objectLock->unlockAll() : 0;
+    // hold the wait mutex before the object lock is given up, so that no notification can be missed
     boost::mutex::scoped_lock waitLock(waitMutex);
-    while (!signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(timeout))) {
-        if (timeout != 0 || signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(10))) {
-            break;
-        }
+    int32_t relockCount = objectLock ? objectLock->unlockAll() : 0;
+    if (timeout > 0) {
+        signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(timeout));
+    } else {
+        signalCondition.wait(waitMutex);
     }
+    waitLock.unlock();
     for (int32_t relock = 0; relock < relockCount; ++relock) {
         objectLock->lock();
     }
 }
 
 void LuceneSignal::notifyAll() {
+    boost::mutex::scoped_lock waitLock(waitMutex);
     signalCondition.notify_all();
 }
 
-- 
2.43.0


From 62df36371f06e2a06dc752eb17c38e665c84b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:38 +0000
Subject: [PATCH 26/42] fix: listing the field cache entries locks each cache
 while it is read

---
 src/core/search/FieldCacheImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index aabcbff..0e16cf2 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -46,6 +46,7 @@ void FieldCacheImpl::purge(const IndexReaderPtr& r) {
 Collection<FieldCacheEntryPtr> FieldCacheImpl::getCacheEntries() {
     Collection<FieldCacheEntryPtr> result(Collection<FieldCacheEntryPtr>::newInstance());
     for (MapStringCache::iterator cache = caches.begin(); cache != caches.end(); ++cache) {
+        SyncLock cacheLock(&cache->second->readerCache);
         for (WeakMapLuceneObjectMapEntryAny::iterator key = cache->second->readerCache.begin(); key != cache->second->readerCache.end(); ++key) {
             LuceneObjectPtr readerKey(key->first.lock());
 
-- 
2.43.0


From 714388749640227bef0af163d1c844dc52fd8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 27/42] fix: do not wait for merge threads while holding the
 writer's lock

---
 src/core/index/IndexWriter.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index ba5ecda..1d91044 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -470,18 +470,25 @@ MergePolicyPtr IndexWriter::getMergePolicy() {
 }
 
 void IndexWriter::setMergeScheduler(const MergeSchedulerPtr& mergeScheduler) {
-    SyncLock syncLock(this);
-    ensureOpen();
-    if (!mergeScheduler) {
-        boost::throw_exception(NullPointerException(L"MergeScheduler must be non-null"));
-    }
-    if (this->mergeScheduler != mergeScheduler) {
-        finishMerges(true);
-        this->mergeScheduler->close();
+    MergeSchedulerPtr oldScheduler;
+    {
+        SyncLock syncLock(this);
+        ensureOpen();
+        if (!mergeScheduler) {
+            boost::throw_exception(NullPointerException(L"MergeScheduler must be non-null"));
+        }
+        if (this->mergeScheduler != mergeScheduler) {
+            finishMerges(true);
+            oldScheduler = this->mergeScheduler;
+        }
+        this->mergeScheduler = mergeScheduler;
+        if (infoStream) {
+            message(L"setMergeScheduler");
+        }
     }
-    this->mergeScheduler = mergeScheduler;
-    if (infoStream) {
-        message(L"setMergeScheduler");
+    // closing waits for the merge threads, which need our lock to finish
+    if (oldScheduler) {
+        oldScheduler->close();
     }
 }
 
-- 
2.43.0


From 2b67df8ee1951a31073f66021c48dd4a3d9d631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:04 +0000
Subject: [PATCH 28/42] fix: compute file positions of documents and of RAM
 files in 64 bits

---
 src/core/index/FieldsReader.cpp      | 2 +-
 src/core/index/IndexReader.cpp       | 2 +-
 src/core/index/TermVectorsReader.cpp | 4 ++--
 src/core/store/RAMInputStream.cpp    | 2 +-
 src/core/store/RAMOutputStream.cpp   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 439b917..0bc2c4e 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -148,7 +148,7 @@ int32_t FieldsReader::size() {
 }
 
 void FieldsReader::seekIndex(int32_t docID) {
-    indexStream->seek(formatSize + (docID + docStoreOffset) * 8);
+    indexStream->seek(formatSize + ((int64_t)docID + docStoreOffset) * 8);
 }
 
 bool FieldsReader::canReadRawDocs() {
diff --git a/src/core/index/IndexReader.cpp b/src/core/index/IndexReader.cpp
index a6cd337..1956565 100644
--- a/src/core/index/IndexReader.cpp
+++ b/src/core/index/IndexReader.cpp
@@ -339,7 +339,7 @@ void IndexReader::main(Collection<String> args) {
 
                 int32_t chunk = buffer.size();
                 while (len > 0) {
-                    int32_t bufLen = std::min(chunk, (int32_t)len);
+                    int32_t bufLen = (int32_t)std::min((int64_t)chunk, len);
                     ii->readBytes(buffer.get(), 0, bufLen);
                     f.write((char*)buffer.get(), bufLen);
                     len -= bufLen;
diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index 488de77..fcf853e 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -121,9 +121,9 @@ IndexInputPtr TermVectorsReader::getTvfStream() {
 
 void TermVectorsReader::seekTvx(int32_t docNum) {
     if (format < FORMAT_VERSION2) {
-        tvx->seek((docNum + docStoreOffset) * 8 + FORMAT_SIZE);
+        tvx->seek(((int64_t)docNum + docStoreOffset) * 8 + FORMAT_SIZE);
     } else {
-        tvx->seek((docNum + docStoreOffset) * 16 + FORMAT_SIZE);
+        tvx->seek(((int64_t)docNum + docStoreOffset) * 16 + FORMAT_SIZE);
     }
 }
 
diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..95eed9f 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -98,7 +98,7 @@ int64_t RAMInputStream::getFilePointer() {
 }
 
 void RAMInputStream::seek(int64_t pos) {
-    if (!currentBuffer || (int32_t)pos < bufferStart || (int32_t)pos >= bufferStart + BUFFER_SIZE) {
+    if (!currentBuffer || pos < bufferStart || pos >= bufferStart + BUFFER_SIZE) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
         switchCurrentBuffer(false);
     }
diff --git a/src/core/store/RAMOutputStream.cpp b/src/core/store/RAMOutputStream.cpp
index da52588..7457453 100644
--- a/src/core/store/RAMOutputStream.cpp
+++ b/src/core/store/RAMOutputStream.cpp
@@ -133,7 +133,7 @@ int64_t RAMOutputStream::getFilePointer() {
 }
 
 int64_t RAMOutputStream::sizeInBytes() {
-    return file->numBuffers() * BUFFER_SIZE;
+    return (int64_t)file->numBuffers() * BUFFER_SIZE;
 }
 
 }
-- 
2.43.0


From 1816ff1850511e891a8479e562e070b6fd3c6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:04 +0000
Subject: [PATCH 29/42] fix: keep lengths and positions of memory mapped files
 in 64 bits

---
 src/core/include/_MMapDirectory.h |  4 ++--
 src/core/store/MMapDirectory.cpp  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..db24d06 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -20,10 +20,10 @@ public:
     LUCENE_CLASS(MMapIndexInput);
 
 protected:
-    int32_t _length;
+    int64_t _length;
     bool isClone;
     boost::iostreams::mapped_file_source file;
-    int32_t bufferPosition; // next byte to read
+    int64_t bufferPosition; // next byte to read
 
 public:
     /// Reads and returns a single byte.
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..f63e7bb 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -32,11 +32,11 @@ IndexOutputPtr MMapDirectory::createOutput(const String& name) {
 }
 
 MMapIndexInput::MMapIndexInput(const String& path) {
-    _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
+    _length = path.empty() ? 0 : FileUtils::fileLength(path);
     bufferPosition = 0;
     if (!path.empty()) {
         try {
-            file.open(boost::filesystem::path(path), _length);
+            file.open(boost::filesystem::path(path), (size_t)_length);
         } catch (...) {
             boost::throw_exception(FileNotFoundException(path));
         }
@@ -58,7 +58,7 @@ uint8_t MMapIndexInput::readByte() {
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
     try {
-        MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
+        MiscUtils::arrayCopy(file.data() + bufferPosition, 0, b, offset, length);
         bufferPosition += length;
     } catch (...) {
         boost::throw_exception(IOException(L"Read past EOF"));
@@ -70,11 +70,11 @@ int64_t MMapIndexInput::getFilePointer() {
 }
 
 void MMapIndexInput::seek(int64_t pos) {
-    bufferPosition = (int32_t)pos;
+    bufferPosition = pos;
 }
 
 int64_t MMapIndexInput::length() {
-    return (int64_t)_length;
+    return _length;
 }
 
 void MMapIndexInput::close() {
-- 
2.43.0


From cf05ce03aa7a6e3fcfde4bada28e2ca50c2e3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:54 +0000
Subject: [PATCH 30/42] fix: keep the positions of term vectors when they are
 copied

---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From 300e98f97b2b30a6ebb20e600f2d4e724c26d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:54 +0000
Subject: [PATCH 31/42] fix: compare payload attributes of which one has no
 payload

---
 src/core/analysis/tokenattributes/PayloadAttribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/tokenattributes/PayloadAttribute.cpp b/src/core/analysis/tokenattributes/PayloadAttribute.cpp
index 217056d..996a2ca 100644
--- a/src/core/analysis/tokenattributes/PayloadAttribute.cpp
+++ b/src/core/analysis/tokenattributes/PayloadAttribute.cpp
@@ -53,8 +53,8 @@ bool PayloadAttribute::equals(const LuceneObjectPtr& other) {
 
     PayloadAttributePtr otherAttribute(boost::dynamic_pointer_cast<PayloadAttribute>(other));
     if (otherAttribute) {
-        if (!otherAttribute->payload && !payload) {
-            return true;
+        if (!otherAttribute->payload || !payload) {
+            return !otherAttribute->payload && !payload;
         }
         return otherAttribute->payload->equals(payload);
     }
-- 
2.43.0


From 83ecf7edd9454cf315f718647c61aedc52d00ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:41 +0000
Subject: [PATCH 32/42] fix: a filtered document set without documents has no
 iterator

---
 src/core/search/FilteredDocIdSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/search/FilteredDocIdSet.cpp b/src/core/search/FilteredDocIdSet.cpp
index 3daba8d..a7bf832 100644
--- a/src/core/search/FilteredDocIdSet.cpp
+++ b/src/core/search/FilteredDocIdSet.cpp
@@ -22,7 +22,11 @@ bool FilteredDocIdSet::isCacheable() {
 }
 
 DocIdSetIteratorPtr FilteredDocIdSet::iterator() {
-    return newLucene<DefaultFilteredDocIdSetIterator>(shared_from_this(), innerSet->iterator());
+    DocIdSetIteratorPtr innerIter(innerSet->iterator());
+    if (!innerIter) {
+        return DocIdSetIteratorPtr();
+    }
+    return newLucene<DefaultFilteredDocIdSetIterator>(shared_from_this(), innerIter);
 }
 
 DefaultFilteredDocIdSetIterator::DefaultFilteredDocIdSetIterator(const FilteredDocIdSetPtr& filtered, const DocIdSetIteratorPtr& innerIter) : FilteredDocIdSetIterator(innerIter) {
-- 
2.43.0


From 23fd0ce80eae9cd00222760318dd18edfdfdc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 33/42] fix: TermAttribute and Array compare whole characters,
 not a quarter of them

---
 include/lucene++/Array.h                            | 2 +-
 src/core/analysis/tokenattributes/TermAttribute.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lucene++/Array.h b/include/lucene++/Array.h
index f868341..8d32ee5 100644
--- a/include/lucene++/Array.h
+++ b/include/lucene++/Array.h
@@ -92,7 +92,7 @@ public:
         if (array->size != other.array->size) {
             return false;
         }
-        return (std::memcmp(array->data, other.array->data, array->size) == 0);
+        return (std::memcmp(array->data, other.array->data, array->size * sizeof(TYPE)) == 0);
     }
 
     int32_t hashCode() const {
diff --git a/src/core/analysis/tokenattributes/TermAttribute.cpp b/src/core/analysis/tokenattributes/TermAttribute.cpp
index e98fe62..11cfdb4 100644
--- a/src/core/analysis/tokenattributes/TermAttribute.cpp
+++ b/src/core/analysis/tokenattributes/TermAttribute.cpp
@@ -134,7 +134,7 @@ bool TermAttribute::equals(const LuceneObjectPtr& other) {
             return false;
         }
 
-        return (std::memcmp(_termBuffer.get(), otherTermAttribute->_termBuffer.get(), _termLength) == 0);
+        return (std::memcmp(_termBuffer.get(), otherTermAttribute->_termBuffer.get(), _termLength * sizeof(wchar_t)) == 0);
     }
 
     return false;
-- 
2.43.0


From 3f8e12e3fe73b1aff4354751be033c75436eada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 34/42] fix: PorterStemmer compares and writes whole suffixes

---
 src/core/analysis/PorterStemmer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/PorterStemmer.cpp b/src/core/analysis/PorterStemmer.cpp
index 8947eef..1682c96 100644
--- a/src/core/analysis/PorterStemmer.cpp
+++ b/src/core/analysis/PorterStemmer.cpp
@@ -149,7 +149,7 @@ bool PorterStemmer::ends(const wchar_t* s) {
     if (length > k + 1) {
         return false;
     }
-    if (std::memcmp(b + k - length + 1, s + 1, length) != 0) {
+    if (std::memcmp(b + k - length + 1, s + 1, length * sizeof(wchar_t)) != 0) {
         return false;
     }
     j = k - length;
@@ -158,7 +158,7 @@ bool PorterStemmer::ends(const wchar_t* s) {
 
 void PorterStemmer::setto(const wchar_t* s) {
     int32_t length = s[0];
-    std::memmove(b + j + 1, s + 1, length);
+    std::memmove(b + j + 1, s + 1, length * sizeof(wchar_t));
     k = j + length;
     dirty = true;
 }
-- 
2.43.0


From cb8abe51e4ebf1474491f1c9f2606e5efe33fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 35/42] fix: StringReader does not drop text after a zero
 character

---
 src/core/util/StringReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/StringReader.cpp b/src/core/util/StringReader.cpp
index 81f83e1..f6e8a7b 100644
--- a/src/core/util/StringReader.cpp
+++ b/src/core/util/StringReader.cpp
@@ -26,7 +26,7 @@ int32_t StringReader::read(wchar_t* buffer, int32_t offset, int32_t length) {
         return READER_EOF;
     }
     int32_t readChars = std::min(length, (int32_t)str.length() - position);
-    std::wcsncpy(buffer + offset, str.c_str() + position, readChars);
+    std::wmemcpy(buffer + offset, str.c_str() + position, readChars);
     position += readChars;
     return readChars;
 }
-- 
2.43.0


From 6b95e73f91b95b5ab12975d9cdf3c0bcc99d0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 36/42] fix: BitSet hash code does not depend on trailing zero
 words

---
 src/core/util/BitSet.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/util/BitSet.cpp b/src/core/util/BitSet.cpp
index 0cbe753..0accd07 100644
--- a/src/core/util/BitSet.cpp
+++ b/src/core/util/BitSet.cpp
@@ -7,8 +7,8 @@
 #include "LuceneInc.h"
 #include "BitSet.h"
 #include "BitUtil.h"
+#include "MiscUtils.h"
 #include <boost/version.hpp>
-#include <boost/iterator/function_output_iterator.hpp>
 
 namespace Lucene {
 
@@ -233,11 +233,12 @@ int32_t BitSet::hashCode() {
     // Start with a zero hash and use a mix that results in zero if the input is zero.
     // This effectively truncates trailing zeros without an explicit check.
     int64_t hash = 0;
-    auto computeHash = [&hash](bitset_type::block_type block) {
-        hash ^= block;
-        hash = (hash << 1) | (hash >> 63); // rotate left
-    };
-    to_block_range(bitSet, boost::make_function_output_iterator(std::ref(computeHash)));
+    Collection<bitset_type::block_type> blocks(Collection<bitset_type::block_type>::newInstance(bitSet.num_blocks()));
+    to_block_range(bitSet, blocks.begin());
+    for (int32_t i = blocks.size(); --i >= 0;) {
+        hash ^= blocks[i];
+        hash = (hash << 1) | MiscUtils::unsignedShift(hash, (int64_t)63); // rotate left
+    }
     // Fold leftmost bits into right and add a constant to prevent empty sets from
     // returning 0, which is too common.
     return (int32_t)((hash >> 32) ^ hash) + 0x98761234;
-- 
2.43.0


From 1ff01bc04bc51a9f200aecc96a62dd8addf1998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 37/42] fix: a cloned ChecksumIndexInput reads through its own
 input

---
 src/core/store/ChecksumIndexInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/store/ChecksumIndexInput.cpp b/src/core/store/ChecksumIndexInput.cpp
index d01e218..a9f9084 100644
--- a/src/core/store/ChecksumIndexInput.cpp
+++ b/src/core/store/ChecksumIndexInput.cpp
@@ -50,7 +50,7 @@ int64_t ChecksumIndexInput::length() {
 LuceneObjectPtr ChecksumIndexInput::clone(const LuceneObjectPtr& other) {
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<ChecksumIndexInput>(main));
     ChecksumIndexInputPtr cloneIndexInput(boost::dynamic_pointer_cast<ChecksumIndexInput>(clone));
-    cloneIndexInput->main = main;
+    cloneIndexInput->main = boost::dynamic_pointer_cast<IndexInput>(main->clone());
     cloneIndexInput->checksum = checksum;
     return cloneIndexInput;
 }
-- 
2.43.0


From 188bda1c5fb67dacaadb86833964dfc8a1c0dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:53 +0000
Subject: [PATCH 38/42] fix: Tokenizer::reset maps offsets through the
 character stream of the new input

---
 src/core/analysis/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/analysis/Tokenizer.cpp b/src/core/analysis/Tokenizer.cpp
index 67ff5af..3ccbd09 100644
--- a/src/core/analysis/Tokenizer.cpp
+++ b/src/core/analysis/Tokenizer.cpp
@@ -50,6 +50,7 @@ int32_t Tokenizer::correctOffset(int32_t currentOff) {
 
 void Tokenizer::reset(const ReaderPtr& input) {
     this->input = input;
+    this->charStream = boost::dynamic_pointer_cast<CharStream>(this->input);
 }
 
 }
-- 
2.43.0


From de06f773a920572563bba23ffa301552a344f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:53 +0000
Subject: [PATCH 39/42] fix: StandardTokenizer maps offsets through the
 character stream it is constructed on

---
 src/core/analysis/standard/StandardTokenizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/standard/StandardTokenizer.cpp b/src/core/analysis/standard/StandardTokenizer.cpp
index 1f0c66a..caa0d5b 100644
--- a/src/core/analysis/standard/StandardTokenizer.cpp
+++ b/src/core/analysis/standard/StandardTokenizer.cpp
@@ -8,6 +8,7 @@
 #include "StandardTokenizer.h"
 #include "StandardTokenizerImpl.h"
 #include "StandardAnalyzer.h"
+#include "CharStream.h"
 #include "TermAttribute.h"
 #include "OffsetAttribute.h"
 #include "PositionIncrementAttribute.h"
@@ -67,6 +68,7 @@ void StandardTokenizer::init(const ReaderPtr& input, LuceneVersion::Version matc
     replaceInvalidAcronym = LuceneVersion::onOrAfter(matchVersion, LuceneVersion::LUCENE_24);
     maxTokenLength = StandardAnalyzer::DEFAULT_MAX_TOKEN_LENGTH;
     this->input = input;
+    this->charStream = boost::dynamic_pointer_cast<CharStream>(this->input);
     termAtt = addAttribute<TermAttribute>();
     offsetAtt = addAttribute<OffsetAttribute>();
     posIncrAtt = addAttribute<PositionIncrementAttribute>();
-- 
2.43.0


From 9bef42300c7602d4a6fb944bb532bd8e16cb9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:23 +0000
Subject: [PATCH 40/42] fix: NativeFSLock no longer deletes the lock file on
 release (two processes could each lock a different file)

---
 src/core/store/NativeFSLockFactory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index b84d9ab..39642cc 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -160,9 +160,8 @@ void NativeFSLock::release() {
             LOCK_HELD().remove(path);
         }
 
-        // we don't care anymore if the file cannot be deleted because it's held up by another process
-        // (eg. AntiVirus). NativeFSLock does not depend on the existence/absence of the lock file
-        FileUtils::removeFile(path);
+        // leave the file: deleting it would let one process lock the old file and another a new one.
+        // NativeFSLock does not depend on the existence/absence of the lock file
     } else {
         // if we don't hold the lock, and somebody still called release(), for example as a result of
         // calling IndexWriter.unlock(), we should attempt to obtain the lock and release it.  If the
-- 
2.43.0


From 0b74a61e303e1b22316d1d740c5e8993b70a59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:58 +0000
Subject: [PATCH 41/42] fix: FieldsWriter closes its streams when creating its
 files fails (close() read doClose before the constructor set it)

---
 src/core/index/FieldsWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/index/FieldsWriter.cpp b/src/core/index/FieldsWriter.cpp
index 85c651d..7fd620a 100644
--- a/src/core/index/FieldsWriter.cpp
+++ b/src/core/index/FieldsWriter.cpp
@@ -32,6 +32,7 @@ const int32_t FieldsWriter::FORMAT_CURRENT = FieldsWriter::FORMAT_LUCENE_3_0_NO_
 
 FieldsWriter::FieldsWriter(const DirectoryPtr& d, const String& segment, const FieldInfosPtr& fn) {
     fieldInfos = fn;
+    doClose = true;
 
     bool success = false;
     String fieldsName(segment + L"." + IndexFileNames::FIELDS_EXTENSION());
@@ -72,8 +73,6 @@ FieldsWriter::FieldsWriter(const DirectoryPtr& d, const String& segment, const F
         }
     }
     finally.throwException();
-
-    doClose = true;
 }
 
 FieldsWriter::FieldsWriter(const IndexOutputPtr& fdx, const IndexOutputPtr& fdt, const FieldInfosPtr& fn) {
-- 
2.43.0


From 35b3a731df0cbc648aec8cdb14f7ff0e0b4ac3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:58 +0000
Subject: [PATCH 42/42] fix: IndexWriter::deleteDocuments by query marks the
 writer when memory runs out, as the other operations do

---
 src/core/index/IndexWriter.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 1d91044..84c300b 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -974,17 +974,25 @@ void IndexWriter::deleteDocuments(Collection<TermPtr> terms) {
 
 void IndexWriter::deleteDocuments(const QueryPtr& query) {
     ensureOpen();
-    bool doFlush = docWriter->bufferDeleteQuery(query);
-    if (doFlush) {
-        flush(true, false, false);
+    try {
+        bool doFlush = docWriter->bufferDeleteQuery(query);
+        if (doFlush) {
+            flush(true, false, false);
+        }
+    } catch (std::bad_alloc& oom) {
+        boost::throw_exception(handleOOM(oom, L"deleteDocuments(Query)"));
     }
 }
 
 void IndexWriter::deleteDocuments(Collection<QueryPtr> queries) {
     ensureOpen();
-    bool doFlush = docWriter->bufferDeleteQueries(queries);
-    if (doFlush) {
-        flush(true, false, false);
+    try {
+        bool doFlush = docWriter->bufferDeleteQueries(queries);
+        if (doFlush) {
+            flush(true, false, false);
+        }
+    } catch (std::bad_alloc& oom) {
+        boost::throw_exception(handleOOM(oom, L"deleteDocuments(VectorQuery)"));
     }
 }
 
-- 
2.43.0

