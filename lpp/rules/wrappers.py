"""C15: wrappers pass every operation on to what they wrap."""
from ..reg import P
from ..db import db, name_of, AnalysisError
from ..elems import ElemSim
from ..sim import NUL, NOEXC, FALSE, TRUE
from ..sym import flat
from ..trace import fn as fn_of

# class, wrapped field, type of the wrapped object, operations of the type the wrapper answers itself (inherited or special), with the reason
TABLE = [
    ("FilterIndexReader", "FilterIndexReader::in", "IndexReader", {
        "reopen": "base answers 'unsupported'", "clone": "base", "getCommitUserData": "base answers 'unsupported'", "document/1": "base calls document/2",
        "hasChanges": "base answers false", "setNorm": "base calls doSetNorm", "termPositions/1": "base seeks termPositions/0", "deleteDocument": "base calls doDelete",
        "deleteDocuments": "base calls deleteDocument", "undeleteAll": "base calls doUndeleteAll", "getIndexCommit": "base answers 'unsupported'",
        "getUniqueTermCount": "base answers 'unsupported'", "getTermInfosIndexDivisor": "base answers 'unsupported'", "acquireWriteLock": "no lock of its own"}),
    ("FilterTermDocs", "FilterTermDocs::in", "TermDocs", {}),
    ("FilterTermPositions", "FilterTermDocs::in", "TermPositions", {}),
    ("FilterTermEnum", "FilterTermEnum::in", "TermEnum", {}),
    ("SimilarityDelegator", "SimilarityDelegator::delegee", "Similarity", {
        "idfExplain": "base computes it from idf", "tf/1": "", "idf/2": "", "encodeNorm": "fixed encoding"}),
    ("MyCommitPoint", "MyCommitPoint::cp", "IndexCommit", {"deleteCommit": "refuses while the commit is a snapshot (C42)", "getTimestamp": "base asks the directory", "equals": "base", "hashCode": "base", "toString": "adds its name"}),
    ("ScoreCachingWrappingScorer", "ScoreCachingWrappingScorer::_scorer", "Scorer", {"score/0": "cached for the current document (checked)", "score/3": "", "termFreq": "base answers 'unsupported'", "freq": "", "getChildren": "", "visitSubScorers": "", "visitScorers": ""}),
    ("CharFilter", "CharFilter::input", "CharStream", {"correctOffset": "corrects its own offset first (checked)", "correct": "", "read/0": "base calls read/3", "skip": "base", "ready": "base", "length": "base"}),
    ("PositiveScoresOnlyCollector", "PositiveScoresOnlyCollector::collector", "Collector", {"collect": "filters", "setScorer": "wraps the scorer (checked)"}),
    ("TimeLimitingCollector", "TimeLimitingCollector::collector", "Collector", {"collect": "stops at the limit"}),
    ("FieldMaskingSpanQuery", "FieldMaskingSpanQuery::maskedQuery", "SpanQuery", {
        "getField": "the masking field", "rewrite": "keeps the mask (C19/C20 judge copies)", "toString": "", "clone": "", "equals": "", "hashCode": "", "setBoost": "own boost", "getBoost": "own boost",
        "weight": "base calls createWeight and getSimilarity", "combine": "base", "toString/0": "", "toString/1": ""}),
    ("SpansCell", "SpansCell::spans", "Spans", {"next": "maintains the queue", "skipTo": "maintains the queue", "toString": "", "getPayload": "copies"}),
    ("FirstSpans", "FirstSpans::spans", "Spans", {"next": "bounds the end", "skipTo": "bounds the end", "toString": "", "getPayload": "copies"}),
    ("ParallelTermPositions", "ParallelTermDocs::termDocs", "TermPositions", {"seek": "chooses the reader", "doc": "", "freq": "", "next": "", "read": "", "skipTo": "", "close": ""}),
    ("FilteredTermEnum", "FilteredTermEnum::actualEnum", "TermEnum", {"next": "filters", "term": "filters", "docFreq": "answers only at a term"}),
    ("TokenFilter", "TokenFilter::input", "TokenStream", {"incrementToken": "the filter's own work"}),
]


class FwdSim(ElemSim):
    """auto: calls of the wrapped object's operation so far"""
    slicing = False
    cap = 200

    def __init__(self, ops, field, typ):
        super().__init__()
        self.ops = ops; self.field = field; self.typ = typ

    def track(self, path, typ):
        return path[0] == "v"

    def may_throw(self, *a):
        return False

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.cls is not None and fr.fn.cls is not None and self.db.isa(fr.cls or fr.fn.cls, fn.cls) and node[3] is not None and \
            node[3][0] == "this" and fn.name not in ("ensureOpen",) and fn.body is not None and fr.depth < 4 if hasattr(fr, "depth") else \
            node[0] == "call" and fn.cls is not None and fr.fn.cls is not None and fn.cls == fr.fn.cls and node[3] is not None and node[3][0] == "this" and fn.body is not None

    def wrapped(self, rp, st):
        for v in (rp, self.rd(rp, st) if rp and rp[0] in ("v", "f") else None):
            if v is None:
                continue
            x = v[1] if v[0] == "p" else v
            if x == ("f", ("this",), self.field):
                return True
        return False

    def on_branch(self, c, v, t, f, fr):
        if v[:2] == ("u", "fw"):
            return [x.fact(v, True) for x in t], [x.fact(v, False) for x in f]
        if v == ("p", ("f", ("this",), self.field)):
            f = [x.a(x.auto + (("null",),)) for x in f]
        return t, f

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        if rp is not None and m in self.ops and self.wrapped(rp, st) and (c in self.db.classes):
            args = []
            for v in vs:
                if v[0] == "p" and v[1][0] == "v":
                    v = self.rd(v[1], st)
                args.append(v)
            e = (m, tuple(args))
            if len(st.auto) >= 4:
                return [(("u", "fw", m), st)]
            return [(("u", "fw", len(st.auto)), st.a(st.auto + (e,)))]
        return super().on_call(node, key, rp, vs, st, fr, xs)


def opname(n):
    if n == "doDelete":
        return "deleteDocument"
    if n.startswith("do") and n[2:3].isupper():
        return n[2].lower() + n[3:]
    return n


ROOTS = ("LuceneObject", "LuceneSync", "Object")


def virtuals(d, typ):
    """virtual operations of the wrapped type, its bases included: signature -> (name, number of parameters)"""
    out = {}
    for c in [typ] + d.supers(typ):
        if c in ROOTS or c not in d.classes:
            continue
        for m in d.classes[c].methods:
            if m[1] in ("<ctor>", "<dtor>", "getClassName", "shared_from_this") or not m[3]:
                continue
            sig = m[0][len(c) + 2:]
            inner = sig[sig.index("(") + 1:-1]
            n = 0 if not inner else 1
            dep = 0
            for ch in inner:
                dep += ch in "<(" 
                dep -= ch in ">)"
                n += ch == "," and dep == 0
            out.setdefault(sig, (m[1], n))
    for r in ("LuceneObject",):
        for c in [r]:
            for m in d.classes[c].methods:
                out.pop(m[0][len(c) + 2:], None)
    return out


def same(v, st):
    """a boolean answer decided by a branch on the wrapped object's answer"""
    w = st.facts.get(("u", "fw", 0))
    return v in (TRUE, FALSE) and w is not None and (w == v or w is (v == TRUE))


class PickSim(FwdSim):
    """operations passed on to one of several wrapped objects; auto: (operation, receiver, arguments) and decisions"""

    def __init__(self, ops):
        super().__init__(ops, "?", "?")

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.cls == fr.fn.cls and node[3] is not None and node[3][0] == "this" and fn.name != "getExtension"

    def res(self, v, st):
        while v[0] == "p" and v[1][0] == "v":
            w = self.rd(v[1], st)
            if w == v:
                break
            v = w
        return v

    def on_branch(self, c, v, t, f, fr):
        if v[0] == "u" and v[1] in ("has", "get"):
            return [x.a(x.auto + (("yes", v),)) for x in t], [x.a(x.auto + (("no", v),)) for x in f]
        return super().on_branch(c, v, t, f, fr)

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        if m == "getExtension":
            return [(("u", "ext", self.res(vs[0], st)), st)]
        if c in ("HashSet", "HashMap", "Map", "Set") and m in ("contains", "get") and vs:
            return [(("u", "has" if m == "contains" else "get", rp, self.res(vs[0], st)), st)]
        if m == "name" and rp is not None and not vs:
            return [(("u", "name", self.res(("p", rp), st)), st)]
        if rp is not None and m in self.ops and c in self.db.classes and rp != ("this",):
            w = rp if rp[0] == "u" else self.res(("p", rp), st)
            n = sum(1 for e in st.auto if e[0] == "call")
            if n > 3:
                return [(("u", "fw", n), st)]
            return [(("u", "fw", n), st.a(st.auto + (("call", m, w, tuple(self.res(v, st) for v in vs)),)))]
        return super().on_call(node, key, rp, vs, st, fr, xs)


def special(res, d):
    """wrappers that choose what they pass an operation on to"""
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.cls == "FileSwitchDirectory" and f.params and f.kind != "ctor" and f.name not in ("getExtension", "getDirectory") and f.body is not None and f.acc == "public":
            P1, P2 = ("p", ("f", ("this",), "FileSwitchDirectory::primaryDir")), ("p", ("f", ("this",), "FileSwitchDirectory::secondaryDir"))
            p0 = ("p", ("v", f.params[0][0], 0))
            D = ("u", "has", ("f", ("this",), "FileSwitchDirectory::primaryExtensions"), ("u", "ext", p0))
            choices = {("yes", D): P1, ("no", D): P2}
            what = "the directory chosen for the name's extension"
        elif f.cls == "PerFieldAnalyzerWrapper" and f.name in ("tokenStream", "reusableTokenStream", "getPositionIncrementGap", "getOffsetGap") and f.body is not None:
            p0 = ("p", ("v", f.params[0][0], 0))
            G = ("u", "get", ("f", ("this",), "PerFieldAnalyzerWrapper::analyzerMap"), ("u", "name", p0) if "Fieldable" in f.params[0][1] else p0)
            choices = {("yes", G): G, ("no", G): ("p", ("f", ("this",), "PerFieldAnalyzerWrapper::defaultAnalyzer"))}
            what = "the analyzer of the field"
        else:
            continue
        n += 1
        sim = PickSim((f.name,))
        o = sim.run(f, ())
        for v, s in o.R:
            calls = [e for e in s.auto if e[0] == "call"]
            dec = [e for e in s.auto if e in choices]
            want = tuple(("p", ("v", p[0], 0)) for p in f.params)
            prob = None
            if len(calls) != 1:
                prob = "does not pass the call on exactly once"
            elif not dec or any(choices[e] != calls[0][2] for e in dec):
                prob = "does not pass the call on to %s" % what
            elif calls[0][3] != want:
                prob = "does not pass its arguments on unchanged"
            elif f.ret != "void" and v != ("u", "fw", 0) and not same(v, s):
                prob = "does not return the answer"
            if prob:
                res.bad("%s/choice" % f.qn, "%s:%d %s %s" % (f.file, f.line, f.qn, prob))
                break
        res.ob("%s is passed on to %s" % (f.qn, what))
    # cached score
    f = fn_of(d, "ScoreCachingWrappingScorer::score", 0)
    if f is None:
        raise AnalysisError("ScoreCachingWrappingScorer::score not found")
    n += 1
    sim = PickSim(("score", "docID"))
    sim.track = lambda path, typ: path[0] == "v" or path[0] == "f" and path[1] == ("this",)
    o = sim.run(f, ())
    T = ("this",)
    CD, CS = ("f", T, "ScoreCachingWrappingScorer::curDoc"), ("f", T, "ScoreCachingWrappingScorer::curScore")
    for v, s in o.R:
        calls = [e[1] for e in s.auto if e[0] == "call"]
        sc = [("u", "fw", k) for k, m in enumerate(calls) if m == "score"]
        di = [("u", "fw", k) for k, m in enumerate(calls) if m == "docID"]
        if sc:
            ok = v in (sc[-1], ("p", CS)) and s.env.get(CS) == sc[-1] and s.env.get(CD) in di
        else:
            ok = v == ("p", CS) and s.env.get(CS) in (None, ("p", CS)) and any(k[0] == "==" and set(k[1:]) & set(di) and ("p", CD) in k for k, b in s.facts.items() if isinstance(k, tuple) and b is True)
        if not ok:
            res.bad("%s/cache" % f.qn, "%s:%d %s answers with a score that is not the one of the current document" % (f.file, f.line, f.qn))
            break
    res.ob("ScoreCachingWrappingScorer::score is the wrapped scorer's score of the current document")
    # corrected offset
    f = fn_of(d, "CharFilter::correctOffset", 1)
    n += 1
    sim = PickSim(("correctOffset", "correct"))
    sim.inline = lambda *a: False
    o = sim.run(f, ())
    for v, s in o.R:
        ok = v[0] == "u"
        calls = [e for e in s.auto if e[0] == "call" and e[1] == "correctOffset"]
        if len(calls) != 1 or calls[0][2] != ("p", ("f", T, "CharFilter::input")) or v[:2] != ("u", "fw"):
            res.bad("%s/offset" % f.qn, "%s:%d %s does not pass the corrected offset on to the stream it filters" % (f.file, f.line, f.qn))
            break
    res.ob("CharFilter::correctOffset asks the wrapped stream")
    return n


def wrap_rule(res, d):
    n = 0
    for cls, field, typ, exempt in TABLE:
        if cls not in d.classes or typ not in d.classes:
            raise AnalysisError("%s or %s not found" % (cls, typ))
        ups = set([typ] + d.supers(typ))
        for sig, (name, np) in sorted(virtuals(d, typ).items()):
            if name in exempt or "%s/%d" % (name, np) in exempt:
                continue
            f = None
            for c in [cls] + d.supers(cls):
                if c in ups:
                    break
                f = d.fns.get(c + "::" + sig)
                if f:
                    break
            n += 1
            if f is None or f.body is None:
                res.bad("%s/missing/%s" % (cls, sig), "%s does not pass %s on to the %s it wraps" % (cls, sig, typ))
                continue
            sim = FwdSim((opname(name),), field, typ)
            o = sim.run(f, ())
            for v, s in o.R:
                ev = tuple(e for e in s.auto if e != ("null",))
                want = tuple(("p", ("v", p[0], None)) for p in f.params)
                prob = None
                if not ev:
                    if ("null",) in s.auto:
                        continue            # nothing is wrapped (any more)
                    prob = "does not pass the call on"
                elif len(ev) > 1:
                    prob = "passes the call on more than once"
                else:
                    a = ev[0][1]
                    for k, p in enumerate(f.params):
                        if k >= len(a) or a[k] not in (("p", ("v", p[0], 0)), ("v", p[0], 0)):
                            prob = "does not pass its argument %d on unchanged" % (k + 1)
                            break
                    if prob is None and f.ret != "void" and v != ("u", "fw", 0) and not same(v, s):
                        prob = "does not return what the wrapped object answered"
                if prob:
                    res.bad("%s/%s" % (f.qn, sig), "%s:%d %s(%s) %s" % (f.file, f.line, f.qn, ", ".join(p[1] for p in f.params), prob))
                    break
            else:
                if not o.R:
                    res.bad("%s/%s" % (f.qn, sig), "%s:%d %s never returns" % (f.file, f.line, f.qn))
            res.ob("%s passes %s on unchanged" % (cls, sig))
    return n


def run15(res, tier):
    d = db()
    res.floor("operations passed on", wrap_rule(res, d), 90)
    res.floor("operations passed on to a chosen object", special(res, d), 13)


PROPS = [P(
    "C15", "Wrappers answer exactly what they wrap answers",
    "A filter reader and its term, document and position enumerations, a similarity delegator, a score-caching scorer, a snapshot's commit point, character and token filters, result-limiting collectors, a field-masking span query and the wrapping spans pass each operation that they do not define specially on exactly once to the same operation of the object they wrap, with the same arguments in the same places, and return its answer unchanged; no such operation is answered by an inherited default instead. A file-switching directory passes each operation on a file to the directory its extension selects, and a per-field analyzer to the analyzer of the field or else the default one. The cached score is always the wrapped scorer's score for its current document.",
    ["inputs", "programs"], "every virtual operation of every wrapped interface, every path through the wrapping method",
    "The tests exercise few wrapped operations, and most through wrappers whose defaults happen to agree.",
    ["src/core/index/FilterIndexReader.cpp", "src/core/store/FileSwitchDirectory.cpp", "src/core/search/SimilarityDelegator.cpp", "src/core/analysis/PerFieldAnalyzerWrapper.cpp", "src/core/search/ScoreCachingWrappingScorer.cpp"],
    [("FilterIndexReader, FilterTermDocs, FilterTermPositions, FilterTermEnum", "FilterIndexReader.cpp"), ("FileSwitchDirectory", "FileSwitchDirectory.cpp"), ("PerFieldAnalyzerWrapper", "PerFieldAnalyzerWrapper.cpp"), ("SimilarityDelegator, ScoreCachingWrappingScorer, PositiveScoresOnlyCollector, TimeLimitingCollector, FieldMaskingSpanQuery", "src/core/search")],
    "symbolic forwarding check of every override against the virtual interface of the wrapped type",
    "Operations a wrapper defines specially are listed with the reason in the rule; what they do beyond passing on is judged only where stated.",
    run15, trusted=["lpp/sim.py, lpp/sym.py, lpp/elems.py (abstract interpreter)"])]
