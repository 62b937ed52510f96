"""C20: a clone carries the whole state of the original and shares no mutable container with it."""
from ..reg import P
from ..db import db
from ..sim import AnalysisError
from ..cloning import coverage, paths_in, mentions_path

SYNC = ("objectLock", "objectSignal")
# class declaring the field -> fields a clone does not take over: caches, statistics, derived or per-instance state
EXEMPT = {
    "SegmentInfo": ("_files", "_sizeInBytes"), "SegmentTermEnum": ("scanBuffer", "_termInfo"), "TermBuffer": ("bytes",),
    "BufferedIndexInput": ("buffer", "__buffer", "bufferLength", "bufferPosition"),
    "MMapIndexInput": ("isClone",), "SimpleFSIndexInput": ("isClone",), "FieldInfos": ("format",),
    "FieldsReader": ("fieldsStream", "indexStream", "fieldsStreamTL", "isOriginal", "closed"),
    "Norm": ("refCount", "in"), "SpanNearQuery": ("field",), "SpanOrQuery": ("field",), "PayloadNearQuery": ("fieldName",),
    "IndexInput": (),
}
# containers shared on purpose: never modified in place after construction, or reference counted
SHARED = {"Norm": ("_bytes",),
          "RAMInputStream": ("currentBuffer",)}
# (class of the clone, field): the constructor always gives it the one possible value
CONST = {("PayloadNearQuery", "SpanNearQuery::collectPayloads")}
# second index over the same elements
FROM = {"FieldInfos::byName": "FieldInfos::byNumber"}
# opened together or not at all
TOGETHER = [{"TermVectorsReader::tvx", "TermVectorsReader::tvd", "TermVectorsReader::tvf"}]
# parts that carry a position or contents of their own: the copy gets its own, not the original's
OWN = ("IndexInput", "Payload", "TermBuffer", "BitSet", "OpenBitSet", "BitVector", "Attribute", "AttributeSourceState", "SegmentInfo", "FieldInfo", "FieldInfos", "DocIdBitSet")
SHARED_PART = {"FieldsReader::cloneableFieldsStream": "cloned by the constructor for the copy's own use, never read itself",
               "FieldsReader::cloneableIndexStream": "the same", "FieldsReader::fieldInfos": "fixed once the segment is written",
               "SegmentTermEnum::fieldInfos": "the same", "TermVectorsReader::fieldInfos": "the same"}
# containers whose elements are copied too
ELEMS = {"SegmentInfos": "SegmentInfoCollection::segmentInfos", "FieldInfos": "FieldInfos::byNumber"}
# position of the copy: what it must be computed from when the buffer is not taken over
NEEDS = {"BufferedIndexInput::bufferStart": ("BufferedIndexInput::bufferStart", "BufferedIndexInput::bufferPosition")}
WATCH = tuple(NEEDS) + ("Payload::offset", "Payload::data")
LENS = ("TermAttribute::_termLength", "Token::_termLength", "Payload::_length", "OpenBitSet::wlen")
SKIP = {"Attribute": "abstract", "LuceneObject": "root", "IndexInput": "abstract base, copies nothing of its own"}
CONT = ("Collection<", "Array<", "HashMap<", "HashSet<", "Map<", "Set<", "WeakHashMap<")


WITH_PARAMS = ("Token",)
DERIVED_ARGS = ("Token::_termBuffer", "Token::_termLength", "Token::_startOffset", "Token::_endOffset")


def parts(res, d, f, paths, sim):
    """independence of the parts, extents of copies, position of the copy"""
    for x, ty, ln, st in d.fields(f.cls, True):
        if not ty.startswith("P<") or x in SHARED_PART or not any(d.isa(ty[2:-1], c) for c in OWN if c in d.classes):
            continue
        res.ob("%s: %s of the copy is not the original's" % (f.qn, x))
        if any((x, "share") in a for a in paths):
            res.bad("%s/%s/part" % (f.qn, x), "%s:%d %s gives the copy the very %s of the original: using or changing one moves or changes the other" % (f.file, f.line, f.qn, x))
    if f.cls in ELEMS:
        es = sim.elems.get(ELEMS[f.cls], ())
        res.ob("%s: elements are copied" % f.qn)
        if not any(e[0] == "nn" or e[0] == "op" and e[1].startswith("call:") and e[1].endswith("::clone") for e in es):
            res.bad("%s/elements" % f.qn, "%s:%d %s puts the original's own elements of %s into the copy" % (f.file, f.line, f.qn, ELEMS[f.cls]))
    for (line, qn), v in sorted(sim.copies.items()):
        ln = v[4]
        res.ob("%s: extent of the array copy at line %d" % (f.qn, line))
        ok = ln[0] == "op" and ln[1] in ("call:Array::size", "call:Collection::size") or ln[0] == "p" and ln[1][0] == "f" and ln[1][2] in LENS
        if ln[0] == "op" and not ln[1].startswith("call:") and not any(True for p in paths_in(ln)):
            ok = True
        if not ok and ln[0] not in ("u", "site") and not sim.params:
            res.bad("%s/extent" % f.qn, "%s:%d %s does not copy the whole run" % (f.file, line, qn))
        if v[3] != ("k", 0) and ln[0] == "op":
            res.bad("%s/extent" % f.qn, "%s:%d %s does not copy to the start of the copy's own array" % (f.file, line, qn))
    for a in paths:
        last = {x[1]: x[2] for x in a if x[0] == "last"}
        for x, need in NEEDS.items():
            if x in last and last[x] is not None and d.isa(f.cls, x.split("::")[0]):
                res.ob()
                if not all(mentions_path(last[x], ("f", ("this",), y)) for y in need) and last[x][0] not in ("u", "site"):
                    res.bad("%s/position" % f.qn, "%s:%d %s: the copy starts at a position that leaves out %s of the original" % (f.file, f.line, f.qn, "/".join(y for y in need if not mentions_path(last[x], ("f", ("this",), y)))))
        if f.cls == "Payload":
            frm = {x[1] for x in a if x[0] == "from"}
            off = last.get("Payload::offset")
            res.ob("Payload::clone: the copy's offset is where its data starts")
            if frm == {("p", ("f", ("this",), "Payload::offset"))} and off != ("k", 0):
                res.bad("Payload::clone/offset", "%s:%d %s copies only the payload's own stretch but keeps an offset into the original array" % (f.file, f.line, f.qn))


def run(res, tier):
    d = db()
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.name != "clone" or not f.cls or f.body is None or not f.file.startswith(("src/", "include/")) or f.cls not in WITH_PARAMS and (len(f.params) != 1 or f.params[0][1] != "P<LuceneObject>"):
            continue
        if f.cls in SKIP or d.isa(f.cls, "IndexReader") or d.classes[f.cls].abstract:
            continue
        try:
            paths, sim = coverage(f, WATCH)
        except AnalysisError:
            res.errors.append("analysis broken: budget exceeded in " + f.qn)
            continue
        if not paths:
            res.errors.append("analysis broken: no path of %s returns a copy" % f.qn)
            continue
        n += 1
        parts(res, d, f, paths, sim)
        args = len(f.params) > 1

        def given(a, x):
            return (x, "set") in a or any(x in g and any((y, "null") in a for y in g) for g in TOGETHER)
        for x, ty, ln, st in d.fields(f.cls, True):
            c, short = x.split("::")[0], x.split("::")[-1]
            if short in SYNC or short in EXEMPT.get(c, ()) or (f.cls, x) in CONST:
                continue
            cont = ty.startswith(CONT)
            res.ob("%s: %s of the copy comes from the original on %d paths" % (f.qn, x, len(paths)))
            hit = [a for a in paths if given(a, x) or (x in FROM and given(a, FROM[x]))]
            if not hit or (not cont and len(hit) < len(paths)):
                res.bad("%s/%s" % (f.qn, x), "%s:%d %s returns a copy that did not receive %s" % (f.file, f.line, f.qn, x))
            elif FROM.get(x, x) not in sim.deps and not (args and (x, "set") in paths[0] and x in DERIVED_ARGS):
                res.bad("%s/%s" % (f.qn, x), "%s:%d %s sets %s of the copy to something that does not come from the same part of the original" % (f.file, f.line, f.qn, x))
            if cont and short not in SHARED.get(c, ()):
                res.ob()
                if any((x, "share") in a for a in paths):
                    res.bad("%s/%s/shared" % (f.qn, x), "%s:%d %s gives the copy the very container %s of the original: changing one changes the other" % (f.file, f.line, f.qn, x))
    res.floor("clone methods", n, 45)


PROPS = [P(
    "C20", "A clone carries the whole state of the original and is independent of it",
    "Cloning a query, attribute, token, bit set, payload, segment description, stream or vectors/term reader yields an object of the same class in which every part of the state (including boost, slop, settings and file positions) has the original's value. Changing a collection or buffer of the clone (clauses, bits, payload bytes, term buffer, per-field entries) never changes the original, or the other way round.",
    ["inputs"], "every class with its own clone operation (index readers excepted), every field including inherited ones, every path of the operation",
    "A forgotten field is visible only when it has a non-default value and the clone, not the original, is used, e.g. after a query is rewritten or a stream is cloned for another thread.",
    ["src/core/search", "src/core/store", "src/core/index", "src/core/util", "src/core/tokenattributes", "src/core/analysis"],
    [("clone overrides", "all classes derived from LuceneObject with their own clone")],
    "path-sensitive field-coverage and container-aliasing dataflow over clone and the constructors and helpers it uses",
    "Every non-derived field must be assigned on the copy from the same field of the original on every returning path (containers filled by loops: on some path); listed shared containers are those never modified in place. Index readers are reopened rather than copied and are excluded.",
    run, trusted=["lpp/sim.py", "lpp/cloning.py", "tables of derived and shared fields in lpp/rules/cloning.py"])]
