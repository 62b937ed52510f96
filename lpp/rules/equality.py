"""C19: equality and hash codes agree and look at the whole value."""
from ..reg import P
from ..db import db, walk, is_node, name_of
from ..sim import AnalysisError, Sim
from .blocks import elem as pointee, extent
from .. import equality as Q

SYNC = ("objectLock", "objectSignal")
# fields that are not part of the value: caches, statistics, or derived from compared fields
EXEMPT = {
    "CachingSpanFilter": ("cache", "hitCount", "missCount"), "CachingWrapperFilter": ("cache", "hitCount", "missCount"),
    "FieldCacheRangeFilterNumeric": ("maxVal",), "FuzzyQuery": ("termLongEnough",), "MultiTermQuery": ("numberOfTerms",),
    "MultiPhraseQuery": ("field",), "PhraseQuery": ("field", "maxPosition"), "NumericRangeQuery": ("valSize",),
    "SpanNearQuery": ("field", "collectPayloads"), "SpanOrQuery": ("field",), "WildcardQuery": ("termContainsWildcard", "termIsPrefix"),
    "AttributeSource": ("factory",), "OpenBitSet": ("wlen",),
}
# value identified by part of its fields, by design (as the interface says)
IDENT = {"SegmentInfo": ("name", "dir"), "TermVectorEntry": ("term",)}
# equal whatever their capacity: the hash code must not depend on the number of words
CAPACITY = {"OpenBitSet": "OpenBitSet::bits", "BitSet": "BitSet::bitSet"}
# the stretch of a buffer that is the value: first and one past the last element
REGION = {"Payload": ("Payload::data", "Payload::offset", ("Payload::_length", "Payload::offset")), "Token": ("Token::_termBuffer", 0, ("Token::_termLength",)),
          "TermAttribute": ("TermAttribute::_termBuffer", 0, ("TermAttribute::_termLength",))}
SKIP = {"AttributeSource": "compares linked attribute states",
        "LuceneObject": "identity", "Attribute": "abstract"}


class HashSim(Sim):
    """the stretches of buffers a hash code reads"""
    symbolic = True

    def __init__(self):
        super().__init__()
        self.regions = []

    def call_relevant(self, n):
        return True

    def may_throw(self, *a):
        return False

    def result(self, e, key, rp, vs, st, fr):
        if key.startswith("MiscUtils::hashCode(") and len(vs) == 3:
            self.regions.append((e[1], vs[1], vs[2], {y[3] for y in walk(e[4][0]) if y[0] == "field"}))
        return super().result(e, key, rp, vs, st, fr)


def fld(v):
    return v[1][2] if v[0] == "p" and v[1][0] == "f" and v[1][1] == ("this",) else v[1] if v[0] == "k" else None


def hashes(res, d, f, h):
    """the hash code is computed from the value itself"""
    if not h.file.startswith(("src/", "include/")) or h.body is None:
        return
    fl = Q.flows(h, d)
    for e in fl:
        if e[0] == "cast" and e[2] in ("int", "long", "unsigned int", "unsigned long") and (pointee(e[-1], d) not in (None, "?") or is_node(e[-1]) and e[-1][0] == "this"):
            res.bad("%s/address" % h.qn, "%s:%d %s hashes the address of a part, which equal objects do not share" % (h.file, e[1], h.qn))
    if f.cls in CAPACITY:
        own = CAPACITY[f.cls]
        for e in fl:
            if e[0] == "field" and e[3] == f.cls + "::wlen" or e[0] == "call" and name_of(e[2]).split("::")[-1] in ("size", "num_blocks", "capacity") and e[3] is not None:
                res.bad("%s/capacity" % h.qn, "%s:%d %s depends on the capacity, which %s does not compare" % (h.file, e[1], h.qn, f.qn))
        ups = [l for l in Q.loops_of(h, d) if l[2] == "up"]
        for l in ups:
            res.bad("%s/capacity" % h.qn, "%s:%d %s folds the words from the first to the last: words of zeros at the end, which %s ignores, change the result" % (h.file, l[0], h.qn, f.qn))
        for c in d.calls(h):
            if name_of(c[2]).split("::")[-1] == "to_block_range" and not any(is_node(y) and y[0] == "call" and name_of(y[2]).split("::")[-1] in ("begin", "rbegin", "get", "data") for y in walk(c[4][-1])):
                res.bad("%s/capacity" % h.qn, "%s:%d %s folds the words from the first to the last: words of zeros at the end, which %s ignores, change the result" % (h.file, c[1], h.qn, f.qn))
        res.ob("%s: independent of the capacity" % h.qn)
    if f.cls in REGION:
        buf, lo, hi = REGION[f.cls]
        sim = HashSim()
        sim.run(h, auto=frozenset())
        for line, a, b, fs in sim.regions:
            if buf not in fs:
                continue
            top = tuple(sorted(fld(x) or "?" for x in b[2:])) if b[0] == "op" and b[1] == "+" else (fld(b),)
            res.ob("%s: hashes exactly the compared stretch of %s" % (h.qn, buf))
            if fld(a) != lo or top != tuple(sorted(hi)):
                res.bad("%s/region" % h.qn, "%s:%d %s hashes another stretch of %s than the one %s compares" % (h.file, line, h.qn, buf, f.qn))


def run(res, tier):
    d = db()
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.name != "equals" or not f.cls or len(f.params) != 1 or f.params[0][1] != "P<LuceneObject>" or f.body is None or not f.file.startswith(("src/", "include/")) or f.cls in SKIP:
            continue
        try:
            paths, elem, sim = Q.coverage(f)
        except AnalysisError:
            res.errors.append("analysis broken: budget exceeded in " + f.qn)
            continue
        n += 1
        req = set()
        for c in [f.cls] + d.supers(f.cls):
            for nm, ty, ln, st in d.fields(c):
                short = nm.split("::")[-1]
                if short in SYNC or short in EXEMPT.get(c, ()):
                    continue
                req.add(nm)
        if f.cls in IDENT:
            req = {f.cls + "::" + x for x in IDENT[f.cls]}
        for c in d.calls(f):
            if not extent(f, c, d)[2]:
                res.bad("%s/extent" % f.qn, "%s:%d %s compares only part of a run of characters or numbers" % (f.file, c[1], f.qn))
        for lp in Q.loops_of(f, d):
            why = Q.partial(lp)
            res.ob()
            if why and lp[6] & elem:
                res.bad("%s/loop" % f.qn, "%s:%d the loop of %s over the elements of %s %s" % (f.file, lp[0], f.qn, "/".join(sorted(lp[6] & elem)), why))
        for g in sorted({g for a in paths for h, g in a if h == "differ"}):
            res.bad("%s/differ/%s" % (f.qn, g), "%s:%d %s can answer true although elements of %s differ" % (f.file, f.line, f.qn, g))
        if f.cls == "OpenBitSet":
            res.ob("%s: words beyond the shorter set compared with zero" % f.qn)
            if CAPACITY[f.cls] not in sim.zero:
                res.bad("%s/tail" % f.qn, "%s:%d %s does not look for bits beyond the shorter set" % (f.file, f.line, f.qn))
        miss = set()
        live = 0
        for a in paths:
            if ("identity", "") in a:
                continue
            live += 1
            miss |= req - Q.covered(a, elem, sim.other)
        for x in sorted(req):
            res.ob("%s: %s found equal on each of the %d paths answering true" % (f.qn, x, live))
        for x in sorted(miss):
            res.bad("%s/%s" % (f.qn, x), "%s:%d %s can answer true although %s of the two objects was not found equal" % (f.file, f.line, f.qn, x))
        h = d.method(f.cls, "hashCode()")
        if h is None or h.qn == "LuceneObject::hashCode":
            if f.cls in ("SegmentInfoCollection",):
                continue
            res.bad("%s/hashCode" % f.cls, "%s:%d %s defines equality without a hash code" % (f.file, f.line, f.cls))
            continue
        hashes(res, d, f, h)
        hs = {x for x in Q.self_reads(f.cls, h) if x.split("::")[0] in [f.cls] + d.supers(f.cls) and x.split("::")[-1] not in SYNC}
        allc = None
        for a in paths:
            if ("identity", "") in a:
                continue
            c = Q.covered(a, elem, sim.other)
            allc = c if allc is None else allc & c
        for x in sorted(hs):
            res.ob()
            if x not in (allc or set()) and x not in miss and x.split("::")[-1] not in ("termContainsWildcard",):
                if x.split("::")[-1] in EXEMPT.get(x.split("::")[0], ()) and x.split("::")[-1] in DERIVED:
                    continue
                if f.cls == "OpenBitSet" and x == "OpenBitSet::wlen":
                    continue            # see hashes()
                res.bad("%s/hash/%s" % (f.cls, x), "%s:%d %s depends on %s, which %s does not compare: equal objects may have different hash codes" % (h.file, h.line, h.qn, x, f.qn))
    res.floor("equality methods", n, 50)


DERIVED = ("field", "maxPosition", "valSize", "termLongEnough", "termContainsWildcard", "termIsPrefix", "maxVal")

PROPS = [P(
    "C19", "Equality covers the whole value and agrees with the hash code",
    "Two queries, filters, clauses, sort criteria, terms, tokens, attributes or payloads of the same class compare equal only if every part of their value is equal, including the inherited boost. Objects that compare equal have the same hash code, so caches and hash sets keyed by them never confuse two different values or miss an equal one.",
    ["inputs"], "every class with its own equality, every pair of field values, every path of the equality method that answers true",
    "Tests compare a few pairs that differ in the obvious field; leaving one part out of the comparison changes nothing for them.",
    ["src/core/search", "src/core/analysis", "src/core/tokenattributes", "src/core/index", "src/core/util"],
    [("equals / hashCode overrides", "all classes derived from LuceneObject with their own equals")],
    "path-sensitive field-coverage dataflow over equals; field-read effects of hashCode",
    "For each path of equals that answers true, every non-derived field of the class and its bases must have been compared equal with the same field of the other object; hashCode may only read compared fields. The result of a function of a field counts as part of its value only; element loops must visibly cover the whole run, a difference found must not lead to true; a hash code uses no addresses, exactly the compared stretch of a buffer, and for sets nothing that depends on their capacity. The linked-list comparison of AttributeSource is outside the rule.",
    run, trusted=["lpp/sim.py", "lpp/equality.py", "table of derived fields in lpp/rules/equality.py"])]
