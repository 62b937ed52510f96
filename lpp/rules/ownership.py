"""C30: no object keeps itself alive."""
from ..reg import P
from ..db import db, is_node, strip_type
from ..cycles import Own, class_circles, isthis, strong_targets


def run(res, tier):
    d = db()
    O = Own()
    n = kept = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or not f.cls or f.file.startswith("src/test") or f.cls not in d.classes:
            continue
        al = {x[2] for x in d.nodes(f) if x[0] == "decl" and is_node(x[4]) and isthis(x[4], ())}
        for x in d.nodes(f):
            if x[0] == "new":
                args, holder = x[3], x[2]
                ts = d.targets(x)
            elif x[0] == "call" and is_node(x[3]):
                args, holder = x[4], None
                ts = d.targets(x)
            elif x[0] == "asg" and isthis(x[4], al) and x[3][0] == "field" and x[3][2][0] != "this":
                n += 1
                res.ob("%s:%d %s stores itself in %s" % (f.file, x[1], f.qn, x[3][3]))
                own = x[3][3].rpartition("::")[0]
                if strong_targets(x[3][4]) and own in d.classes and own != f.cls:
                    kept += 1
                    judge(res, O, f, x, own, x[3][3])
                continue
            else:
                continue
            for i, a in enumerate(args):
                if not isthis(a, al):
                    continue
                n += 1
                for t in ts:
                    fld = O.keeps(t.key).get(i)
                    h = holder or t.cls
                    res.ob("%s:%d %s hands itself to %s" % (f.file, x[1], f.qn, t.qn))
                    if fld and h in d.classes and h != f.cls and (holder or not given(x[3])):
                        kept += 1
                        judge(res, O, f, x, h, fld)
    res.count("places where an object hands itself to another", n)
    res.count("receivers that keep it", kept)
    m, kinds, cs = class_circles(O)
    res.ob("%d counted references between classes, %d composed kinds" % (m, len(kinds)))
    for c in cs:
        if not any(x in REVIEWED for x in c):
            res.bad("circle/" + "/".join(sorted(c)), "circle of counted references: %s (at %s): the objects keep each other alive" %
                    (" -> ".join(c), ", ".join(where(d, x) for x in c)))
    res.count("counted references between classes", m)
    res.floor("counted references between classes", m, 600)
    res.count("classes", len(d.classes))
    res.floor("places where an object hands itself to another", n, 120)
    res.floor("receivers that keep it", kept, 20)


# the reader the norm was first made for, never the one that holds the norm (SegmentReader::clone, Norm::clone)
REVIEWED = ("Norm::origReader",)


def where(d, fld):
    c = fld.rpartition("::")[0]
    return next(("%s:%d" % (d.classes[c].file, x[2]) for x in d.fields(c) if x[0] == fld), c)


def given(e):
    """is the receiver a parameter (not a part of this object)"""
    while e[0] in ("arrow", "star"):
        e = e[2]
    return e[0] == "var" and "@p" in e[2]


def judge(res, O, f, x, holder, fld):
    p = O.reach(f.cls, holder)
    if p:
        res.bad("%s/%s" % (f.cls, fld), "%s:%d %s hands itself to %s, which keeps it in %s (a counted reference), and it keeps that object through %s: "
                "neither is ever destroyed" % (f.file, x[1], f.qn, holder, fld, " -> ".join(p)))


PROPS = [P(
    "C30", "No object keeps itself alive",
    "When a program drops its last reference to a writer, reader, searcher, query, iterator, stream or cache, the object and the parts it "
    "built for itself are destroyed. No part that an object makes or is given and keeps, directly or through a chain of parts, holds a "
    "counted reference back to that object; back references are weak.",
    "programs", "every place where an object hands itself to another, every class of the library",
    "leaked objects change no result; tests neither measure memory nor notice files and buffers that stay open",
    ["include/lucene++/LucenePtr.h", "src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/SegmentReader.cpp", "src/core/search"],
    [("counted and weak pointers", "DECLARE_SHARED_PTR types, fields named _x"), ("shared_from_this", "constructors and initialize() of all parts")],
    "ownership analysis over the type-checked classes: strong-pointer field graph plus the parameters each constructor and setter keeps; circles through the object that handed itself out",
    "chains are followed by class, with all subclasses of a field's type; references kept in generic values (boost::any, LuceneObject) and containers shared between objects are not followed", run)]
