"""C26: results that may be missing are tested before they are used."""
from ..reg import P
from ..db import db, name_of
from ..nullflow import Null

# calls whose result is there whenever they are made (each read)
PRESENT = {
    "FieldInfos::fieldInfo(int)": "empty only for a negative number",
    "PriorityQueue::pop": "taken while the queue is not empty",
    "HitQueueBase::pop": "taken while the queue is not empty",
    "QueryParser::jj_consume_token": "returns the token or throws the parse error",
    "SegmentReader::getFieldsReader": "the thread's copy is made by initialValue",
    "CloseableThreadLocal::get": "initialValue, in the classes that rely on it",
}
# uses whose presence is shown by another condition (function, source)
REVIEWED = {
    ("ParallelTermEnum::next", "term"): "next() has just found a term",
    ("ParallelTermDocs::seek", "term"): "called with an enumeration that stands on a term",
    ("SegmentTermDocs::seek", "term"): "called with an enumeration that stands on a term",
    ("NumericRangeTermEnum::next", "term"): "termCompare accepts a missing term",
    ("TermVectorsWriter::addAllDocVectors", "tested"): "positions and offsets are stored only when the vector has them",
    ("MultiFieldQueryParser::getFuzzyQuery", "getFuzzyQuery"): "for one field there always is a query",
    ("MultiFieldQueryParser::getPrefixQuery", "getPrefixQuery"): "for one field there always is a query",
    ("MultiFieldQueryParser::getRangeQuery", "getRangeQuery"): "for one field there always is a query",
    ("MultiFieldQueryParser::getWildcardQuery", "getWildcardQuery"): "for one field there always is a query",
    ("CachingTokenFilter::fillCache", "captureState"): "a stream without attributes has no state; restoreState accepts that",
    ("MemoryIndexReader::getTermFreqVectors", "getTermFreqVector"): "asked for the fields the index has",
    ("FilteredQueryWeight::explain", "iterator"): "the empty set has an iterator",
}


def run(res, tier):
    d = db()
    N = Null(skip=set(PRESENT))
    n = N.scan()
    calls = 0
    for f in d.fns.values():
        if f.body is None or f.file.startswith("src/test"):
            continue
        for x in d.nodes(f):
            if x[0] == "call" and N.nullable_call(x) is not None:
                calls += 1
                res.ob("%s:%d %s tests the result of %s" % (f.file, x[1], f.qn, name_of(x[2])))
    for (q, src), (fi, l, sl) in sorted(N.uses.items()):
        s = src.split("::")[-1]
        if (q, s) in REVIEWED:
            continue
        what = {"tested": "a value that was found to be missing", "empty": "an empty value", "reset": "a value that was given up"}.get(src, "the result of %s, which may be missing," % src)
        res.bad("%s/%s" % (q, src), "%s:%d %s uses %s without a test on this path (obtained at line %s)" % (fi, l, q, what, sl or "-"))
    res.count("functions whose result may be missing", len(N.why))
    res.count("calls of them", calls)
    res.count("functions examined", n)
    res.floor("functions whose result may be missing", len(N.why), 50)
    res.floor("calls of them", calls, 120)
    res.floor("functions examined", n, 5000)


PROPS = [P(
    "C26", "A missing result is tested before it is used",
    "Where an operation may come back without a result - no scorer for a segment that lacks the term, no document set or iterator from a filter, "
    "no term vector, no term at the end of an enumeration, no information on a field, no merge to run, no query left of a parsed text, no token stream or payload - "
    "the code that asked tests the result on every path before it uses it or hands it to code that does.",
    "inputs", "all calls of functions that may return an empty pointer, all paths of the caller",
    "tests use terms, fields and filters that exist; the empty answer needs a segment, text or document of a special kind and then crashes the process",
    ["src/core/search", "src/core/index", "src/core/queryparser", "src/contrib"],
    [("scorers and document sets", "Weight::scorer, Filter::getDocIdSet, DocIdSet::iterator"), ("terms and vectors", "TermEnum::term, getTermFreqVector, FieldInfos::fieldInfo"), ("merges", "getNextMerge, findMerges")],
    "nullness dataflow with a fixed point over the functions that may return an empty pointer and the parameters that are used untested",
    "results stored in fields are followed only within one function; a variable that starts empty and is set on some paths is not reported", run)]
