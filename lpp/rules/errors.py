"""C05: no failure is silently dropped."""
import collections
from ..reg import P
from ..swallow import swallowed, trycalls
from ..db import db
from .. import status

IO = "X<IO|LuceneException>&"
FNF = "X<FileNotFound|X<IO|LuceneException>>&"
LE = "LuceneException&"
SFC = "X<StopFillCache|X<Runtime|LuceneException>>&"
NF = "X<NumberFormat|X<IllegalArgument|X<Runtime|LuceneException>>>&"
LOOK = "X<Lookahead|LuceneException>&"

# confirmed places where catching the error IS the answer: (file, caught type) -> ({function: handlers}, reason)
OK = {
    ("src/contrib/highlighter/QueryTermExtractor.cpp", "..."): ({"QueryTermExtractor::getIdfWeightedTerms": 1}, "idf weighting is optional: the term keeps its unweighted boost"),
    ("src/contrib/highlighter/WeightedSpanTermExtractor.cpp", "..."): ({"WeightedSpanTermExtractor::closeReaders": 1}, "private in-memory readers being thrown away"),
    ("src/core/index/CheckIndex.cpp", "..."): ({"CheckIndex::checkIndex": 4, "CheckIndex::main": 1}, "the tool reports every failure in the returned status"),
    ("src/core/index/ConcurrentMergeScheduler.cpp", "X<MergeAborted|X<IO|LuceneException>>&"): ({"MergeThread::run": 1}, "an aborted merge is not an error"),
    ("src/core/index/DirectoryReader.cpp", FNF): ({"DirectoryReader::listCommits": 1}, "commit removed while listing"),
    ("src/core/index/DocumentsWriter.cpp", "..."): ({"DocumentsWriter::abort": 1}, "aborting throws everything away anyway"),
    ("src/core/index/FieldInfos.cpp", IO): ({"FieldInfos::FieldInfos": 1}, "falls back to reading the old format; rethrown when that fails too"),
    ("src/core/index/IndexFileDeleter.cpp", IO): ({"IndexFileDeleter::IndexFileDeleter": 1, "IndexFileDeleter::deleteFile": 1}, "aborted future commit; file still held open is queued for a later retry"),
    ("src/core/index/IndexWriter.cpp", LE): ({"IndexWriter::initialize": 1, "IndexWriter::mergeMiddle": 2, "IndexWriter::startCommit": 1}, "no index to append to when creating; aborted merge/commit is handled by kind and anything else rethrown"),
    ("src/core/index/IndexWriter.cpp", "..."): ({"IndexWriter::closeMergeReaders": 2}, "second failure while the first one is already on its way to the caller"),
    ("src/core/index/IndexWriter.cpp", IO): ({"IndexWriter::mergeMiddle": 1}, "compound file of an aborted merge"),
    ("src/core/index/SegmentInfo.cpp", LE): ({"SegmentInfo::segString": 1}, "diagnostic text shows ?"),
    ("src/core/index/SegmentInfos.cpp", "X<NoSuchDirectory|X<FileNotFound|X<IO|LuceneException>>>&"): ({"SegmentInfos::getCurrentSegmentGeneration": 1}, "no directory means no index"),
    ("src/core/index/SegmentInfos.cpp", FNF): ({"FindSegmentsFile::doRun": 1}, "segments.gen is optional"),
    ("src/core/index/SegmentInfos.cpp", IO): ({"FindSegmentsFile::doRun": 2}, "segments.gen is a hint; the listing decides"),
    ("src/core/index/SegmentInfos.cpp", LE): ({"FindSegmentsFile::doRun": 2, "SegmentInfos::finishCommit": 1}, "retried with the next generation, the first error is kept and thrown at the end; segments.gen is optional"),
    ("src/core/index/SegmentInfos.cpp", "..."): ({"SegmentInfos::rollbackCommit": 2, "SegmentInfos::finishCommit": 1}, "second failure while the first one is on its way to the caller; segments.gen is optional"),
    ("src/core/index/SegmentReader.cpp", "..."): ({"SegmentReader::getTermVectorsReader": 1}, "no clone: answered as no term vectors (as upstream)"),
    ("src/core/index/StoredFieldsWriter.cpp", "..."): ({"StoredFieldsWriter::abort": 1}, "files of an aborted flush"),
    ("src/core/index/TermVectorsTermsWriter.cpp", "..."): ({"TermVectorsTermsWriter::abort": 3}, "files of an aborted flush"),
    ("src/core/queryparser/QueryParser.cpp", IO): ({"QueryParser::getFieldQuery": 6}, "token stream over a string in memory"),
    ("src/core/queryparser/QueryParser.cpp", "..."): ({"QueryParser::getRangeQuery": 1}, "bounds that are not dates are used literally"),
    ("src/core/queryparser/QueryParser.cpp", LOOK): ({"QueryParser::jj_2_1": 1, "QueryParser::jj_rescan_token": 1}, "look-ahead success signal of the generated parser"),
    ("src/core/queryparser/QueryParserTokenManager.cpp", IO): ({"QueryParserTokenManager": 10}, "end of the query string"),
    ("src/core/search/FieldCacheImpl.cpp", SFC): ({"ByteCache::createValue": 1, "IntCache::createValue": 1, "LongCache::createValue": 1, "DoubleCache::createValue": 1}, "internal signal: last full-precision term reached"),
    ("src/core/search/FieldCacheImpl.cpp", NF): ({"IntCache::createValue": 1, "LongCache::createValue": 1, "DoubleCache::createValue": 1}, "second parser is tried"),
    ("src/core/search/FieldCacheTermsFilter.cpp", "X<IndexOutOfBounds|X<Runtime|LuceneException>>&"): ({"FieldCacheTermsFilterDocIdSetIterator::nextDoc": 1, "FieldCacheTermsFilterDocIdSetIterator::advance": 1}, "end of the set"),
    ("src/core/search/QueryTermVector.cpp", IO): ({"QueryTermVector::QueryTermVector": 1}, "token stream over a string in memory"),
    ("src/core/store/Directory.cpp", "..."): ({"Directory::copy": 1}, "closing an input that was completely read"),
    ("src/core/store/NativeFSLockFactory.cpp", "..."): ({"NativeFSLock::~NativeFSLock": 1}, "destructor must not throw"),
    ("src/core/store/NativeFSLockFactory.cpp", LE): ({"NativeFSLock::isLocked": 1}, "a lock that cannot be probed counts as not locked (as upstream)"),
    ("src/core/util/LuceneThread.cpp", "..."): ({"LuceneThread::runThread": 1}, "top of a thread's stack"),
}
# (file, caught type) whose handlers are recorded in known-findings.txt
KNOWN_FILES = {("src/core/index/FieldsReader.cpp", "..."), ("src/core/index/FieldsReader.cpp", IO)}


def run(res, tier):
    sw, nh, nf = swallowed()
    res.floor("exception handlers", nh, 250)
    res.floor("functions with handlers", nf, 140)
    for i in range(nh):
        res.ob()
    by = collections.defaultdict(list)
    for f, t, h in sw:
        by[(f.file, h[1])].append((f, t, h))
    for k, l in sorted(by.items()):
        l.sort(key=lambda x: x[2][0])
        if k in KNOWN_FILES:
            for i, (f, t, h) in enumerate(l):
                res.bad("%s:catch(%s)#%d" % (k[0].split("/")[-1], "..." if h[1] == "..." else "IO", i + 1),
                        "%s:%d %s: handler for %s can end in a normal return; guarded calls: %s" % (f.file, h[0], f.qn, h[1], ", ".join(sorted(trycalls(t))[:8])))
            continue
        allow, why = OK.get(k, ({}, ""))
        if len(l) <= sum(allow.values()):
            res.count("handlers confirmed as the answer", len(l))
            continue
        have = collections.Counter()
        rep = 0
        for f, t, h in l:
            have[f.qn] += 1
            if have[f.qn] > allow.get(f.qn, 0):
                rep += 1
                res.bad("%s/catch(%s)#%d" % (f.qn, h[1], have[f.qn]), "%s:%d %s: the handler for %s can end in a normal return, so the failure of the guarded calls (%s) is lost" % (
                    f.file, h[0], f.qn, h[1], ", ".join(sorted(trycalls(t))[:8])))
        if not rep:
            res.bad("%s/catch(%s)" % k, "%s: %d handlers for %s end in a normal return, %d are confirmed" % (k[0], len(l), k[1], sum(allow.values())))
    status.run(res); status.oom(res)
    res.assume.append("a handler that stores the exception object (in a field, or by passing it to a call) has handed it on")
    for f, t, h in sw[:6]:
        res.samples.append("%s:%d %s catch %s" % (f.file, h[0], f.qn, h[1]))


PROPS = [P(
    "C05", "No failure is silently dropped",
    "When an operation of the library fails internally (I/O error, corruption, out of memory, lock failure), the public call that needed the operation fails too: it reports that error or one translated from it, and does not return as if it had succeeded. The only exceptions are the places where the error itself is the documented answer (optional segments.gen hints, aborted merges, end of a query string, and so on).",
    ["fault_sequences", "inputs"], "every exception handler of the library, every kind of exception that can reach it, every path from the handler to the function's exit; every call of a file operation that reports failure by its value or stream state",
    "Tests inject few faults at few points; a handler that loses the error on one path passes all of them.",
    ["src/core", "src/contrib"], [("LuceneException finally / throwException idiom", "include/lucene++/LuceneException.h"), ("catch handlers", "src/core/index/*.cpp, src/core/store/*.cpp")],
    "path-sensitive abstract interpretation of every try/catch (handlers that can reach a normal return) and of every use of a file operation that reports failure by value or stream state",
    "Every handler is followed to the exits of its function with exception-holder and flag correlation; handlers that may end in a normal return must be in the confirmed table (counted per file and caught type). Known limits: an error turned into a wrong value without a handler is not seen.",
    run)]
