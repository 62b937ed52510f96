"""properties this family of technique cannot decide here"""
def _p(id, title, statement, over, quant, why, files, mech, reason):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, "reason": reason}

PROPS = [
 _p("C60", "Search returns exactly the documents that satisfy the query",
    "For every index and query the set of returned documents is exactly the set of live documents that satisfy the query by its documented meaning (terms, phrases with slop, boolean clauses, ranges, wildcards, fuzzy and span conditions).",
    ["inputs"], "all index contents, all query trees", "Tests compare a few queries over a few documents.",
    ["src/core/search", "src/core/search/spans"], [("Scorer, Weight, Spans", "src/core/search")],
    "needs the values of postings and positions; matching loops (phrase slop, span ordering, fuzzy distance) have no abstraction in reach that would decide set equality"),
 _p("C61", "Scores follow the similarity formula and agree with their explanation",
    "The score of a hit equals the value the scoring formula gives for its statistics, and the explanation of the same hit reports the same value.",
    ["inputs"], "all documents, queries, similarity settings", "Tests check a few scores against constants.",
    ["src/core/search"], [("Similarity, Weight::explain", "src/core/search")],
    "an equality between floating-point values computed by two differently structured pieces of code over run-time statistics"),
 _p("C62", "The best hits are returned in the right order",
    "A search limited to n hits returns the n best matching documents in the order of the sort criteria, ties broken by document number.",
    ["inputs"], "all result sets, all sort criteria, all n", "Tests sort a handful of documents.",
    ["src/core/search", "include/lucene++/PriorityQueue.h"], [("HitQueue, FieldValueHitQueue, PriorityQueue", "src/core/search")],
    "heap order is an inductive invariant over array contents; only the base-adding part (C25) and the comparison operators (C19) are decidable from the text"),
 _p("C63", "Merging and optimizing keep the content",
    "After segments are merged the index holds the same live documents with the same stored fields, postings, positions, payloads, norms and vectors, in the same order, without the deleted ones.",
    ["histories"], "all sequences of additions, deletions and merges", "Tests merge small segments of regular shape.",
    ["src/core/index/SegmentMerger.cpp"], [("SegmentMerger", "src/core/index/SegmentMerger.cpp")],
    "equality of two on-disk structures depends on the run-time values of document maps, pointers and gaps"),
 _p("C64", "What is written is read back",
    "Every stored field, posting, position, payload, norm, vector and number written to an index is read back with the same value.",
    ["inputs"], "all documents", "Tests round-trip a few documents.",
    ["src/core/index", "src/core/store"], [("FieldsWriter/FieldsReader, TermInfosWriter/SegmentTermEnum, DocFieldConsumers", "src/core/index")],
    "the values pass through delta coding, skip lists and byte-slice pools whose addressing is run-time arithmetic; only the shape of the encoding (order and kind of primitives) is visible to a static rule"),
 _p("C65", "Numeric encodings keep the order and the value",
    "Prefix-coded longs, ints and doubles decode to the same number, sort as strings in numeric order, and a numeric range is split into term ranges that cover exactly the range.",
    ["inputs"], "all 64-bit and 32-bit values, all precision steps", "Tests sample random values.",
    ["src/core/util/NumericUtils.cpp"], [("NumericUtils", "src/core/util/NumericUtils.cpp")],
    "a statement about 64-bit arithmetic for all values; deciding it needs a solver or exhaustive execution, which is another family"),
 _p("C66", "Stemmers and analyzers produce the documented tokens",
    "For every text each analyzer and stemmer yields the tokens its published algorithm defines.",
    ["inputs"], "all texts in each language", "Tests use word lists.",
    ["src/core/analysis", "src/contrib/analyzers", "src/contrib/snowball"], [("StandardTokenizerImpl, Stemmer classes", "src/contrib/analyzers")],
    "the reference is a natural-language algorithm; the scanner is a generated table and the stemmers are string rewriting over run-time text"),
 _p("C67", "A near-real-time reader sees everything added before it was opened",
    "A reader obtained from a writer contains every document added, and none deleted, by operations that finished before it was obtained, and nothing of later ones.",
    ["histories", "schedules"], "all histories of additions, deletions and merges with concurrent threads", "Tests run short histories.",
    ["src/core/index/IndexWriter.cpp"], [("getReader, ReaderPool", "src/core/index/IndexWriter.cpp")],
    "a visibility relation between run-time histories; the locking it rests on is covered by the lock rules"),
 _p("C68", "Concurrent operations behave as if run one after another",
    "Operations of several threads on one writer or reader have the effect of some sequential order of them.",
    ["schedules"], "all interleavings", "Tests run a few threads for a second.",
    ["src/core/index"], [("SyncLock, DocumentsWriter", "src/core/index")],
    "linearizability needs the meaning of each operation; lock discipline, which is decided, is necessary but not sufficient"),
 _p("C69", "Buffered memory stays within the configured limit",
    "The memory used for buffered documents and deletions, as accounted, stays within the configured RAM buffer plus one document per thread, and buffers are recycled.",
    ["histories"], "all sequences of documents", "Tests use a few sizes.",
    ["src/core/index/DocumentsWriter.cpp"], [("balanceRAM, bytesUsed", "src/core/index/DocumentsWriter.cpp")],
    "the balance of counters over run-time sizes cannot be bounded by a static argument in reach"),
 _p("C70", "Query strings parse to the query they denote",
    "Every query string of the documented grammar parses to the denoted query, every other string is refused with a parse error, and the text form of a query parses back to an equal query.",
    ["inputs"], "all strings", "Tests parse a list of strings.",
    ["src/core/queryparser"], [("QueryParser, QueryParserTokenManager", "src/core/queryparser")],
    "the token manager is a generated automaton over jump tables; equivalence with the grammar needs its execution"),
 _p("C71", "Highlighted fragments contain the best matching text",
    "The highlighter returns the fragments with the highest scores, marks exactly the matching terms and leaves the rest of the text unchanged.",
    ["inputs"], "all texts and queries", "Tests use a fixed set of texts.",
    ["src/contrib/highlighter"], [("Highlighter, QueryScorer", "src/contrib/highlighter")],
    "depends on run-time scores and offsets"),
 _p("C72", "Every merge policy keeps the number of segments bounded",
    "With a log merge policy the number of segments grows only logarithmically with the number of documents, and a merge never exceeds the configured sizes.",
    ["histories"], "all sequences of flushes", "Tests add a few hundred documents.",
    ["src/core/index/LogMergePolicy.cpp"], [("LogMergePolicy::findMerges", "src/core/index/LogMergePolicy.cpp")],
    "a quantitative bound over run-time logarithms of sizes"),
]
