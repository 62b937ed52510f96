"""C38: whatever changes the index also counts as a change, so that the next commit writes it."""
from ..reg import P
from ..db import db, name_of, walk, AnalysisError
from ..elems import ElemSim
from ..sim import Sim, NUL, TRUE, FALSE, VOID

SI = "IndexWriter::segmentInfos"
COUNT = "IndexWriter::changeCount"
LAST = "IndexWriter::lastCommitChangeCount"
PEND = "IndexWriter::pendingCommitChangeCount"


LISTS = ("SegmentInfos", "SegmentInfoCollection")


def list_mutators(d):
    """methods of the segment list that change which segments it holds"""
    r = {}
    for f in d.fns.values():
        if f.cls not in LISTS or f.body is None or f.kind in ("ctor", "dtor"):
            continue
        for n in d.nodes(f):
            if n[0] == "call" and n[3] is not None and n[3][0] == "field" and n[3][2][0] == "this" and n[3][3] == "SegmentInfoCollection::segmentInfos" and \
                    name_of(n[2]).split("::")[-1] in ("add", "addAll", "clear", "remove", "remove_if", "removeLast", "removeFirst", "swap", "resize"):
                r[f.qn] = f
    ch = True
    while ch:
        ch = False
        for f in d.fns.values():
            if f.cls in LISTS and f.body is not None and f.qn not in r:
                for n in d.nodes(f):
                    if n[0] == "call" and n[3] is not None and n[3][0] == "this" and name_of(n[2]) in r:
                        r[f.qn] = f; ch = True
    return set(r) - {"SegmentInfos::read"}       # what is read is what the last commit wrote


def strip(v):
    while v[:2] == ("u", "dpc"):
        v = v[3]
    return v


class WriterSim(ElemSim):
    """auto: frozenset of ("dirty", where) | ("in", value) | ("snap", value, region, bump) | ("n", region, bump)"""
    cap = 250
    slicing = True
    steps_cap = 400000

    def __init__(self, muts, summ, top):
        super().__init__()
        self.muts = muts; self.summ = summ; self.top = top; self.found = {}; self.nmut = 0; self.nrec = 0
        self.calm = frozenset()

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException", "long", "int64_t") or typ[:2] == "P<" and ("SegmentInfo" in typ)
        return path[0] == "f" and path[2] in (PEND,)

    def call_relevant(self, n):
        if n[0] == "call":
            q = name_of(n[2])
            if q in self.muts or q in ("SegmentInfos::commit", "SegmentInfos::clone", "SegmentInfo::setUseCompoundFile", "DocumentsWriter::applyDeletes"):
                return True
        return Sim.call_relevant(self, n)

    def may_throw(self, node, targets, st, fr):
        return Sim.may_throw(self, node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        return fn.key in self.summ and fn.key != self.top

    def clean(self, st):
        return st.a(frozenset(t for t in st.auto if t[0] != "dirty"))

    def num(self, st):
        for t in st.auto:
            if t[0] == "n":
                return t
        return ("n", 0, 0)

    def setnum(self, st, r, b):
        return st.a(frozenset(t for t in st.auto if t[0] != "n") | {("n", min(r, 9), min(b, 9))})

    def count(self, st):
        n = self.num(st)
        return self.setnum(self.clean(st), n[1], n[2] + 1)

    def on_unlock(self, lock, st, node, fr):
        n = self.num(st)
        return self.setnum(st, n[1] + 1, n[2])

    def dirty(self, st, node, fr, what):
        self.nmut += 1
        return st.a(st.auto | {("dirty", "%s:%d %s" % (fr.fn.file, node[1], what))})

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); m = q.split("::")[-1]
        if q in self.muts and rp is not None:
            mine = rp[0] == "f" and rp[2] == SI
            snap = any(t[0] == "snap" and t[1] == self.val(rp, st) for t in st.auto)
            if self.may_throw(node, self.targets(node, None, rp, st, fr), st, fr):
                xs.append((self.anyexc(node, key, fr), st))
            if m == "addAll" and mine and vs and vs[0][0] == "p" and vs[0][1][0] == "f" and "ollback" in vs[0][1][2]:
                return [(VOID, self.clean(st))]         # back to a remembered state, which had been counted
            if mine or snap:
                st = self.dirty(st, node, fr, "changes the segments the writer holds" if mine else "leaves segments out of the snapshot")
                if m == "add" and vs:
                    st = st.a(st.auto | {("in", strip(vs[-1]))})
            return [(("u", "r", id(node)), st)]
        if q == "SegmentInfos::commit" and rp is not None and rp[0] == "f" and rp[2] == SI:
            xs.append((("any",), st))
            return [(VOID, self.clean(st))]
        if q == "SegmentInfos::clone" and rp is not None and rp[0] == "f" and rp[2] == SI:
            v = ("u", "snap", node[1])
            n = self.num(st)
            st = st.a(frozenset(t for t in st.auto if t[0] != "snap") | {("snap", v, n[1], n[2])})
            return [(v, st)]
        if q == "SegmentInfo::setUseCompoundFile" and rp is not None and ("in", self.val(rp, st)) in st.auto:
            return [(VOID, self.dirty(st, node, fr, "changes a segment the writer holds"))]
        if q == "DocumentsWriter::applyDeletes":
            xs.append((("any",), st))
            return [(TRUE, self.dirty(st, node, fr, "applies deletions to the segments the writer holds")), (FALSE, st)]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def val(self, rp, st):
        if rp[0] not in ("v", "f", "i", "g", "this"):
            return strip(rp)
        v = st.env.get(rp)
        return strip(v) if v is not None else ("p", rp)

    def rd(self, path, st):
        if path[0] == "f" and path[2] == COUNT:
            n = self.num(st)
            return ("u", "cc", n[1], n[2])
        return super().rd(path, st)

    def on_assign(self, path, val, st, node, fr):
        if path[0] != "f":
            return st
        if path[2] == COUNT:
            return self.count(st)
        if path[2] == LAST and fr.fn.kind != "ctor" and fr.fn.qn not in ("IndexWriter::initialize",):
            self.nrec += 1
            if not (val[0] == "p" and val[1][0] == "f" and val[1][2] == PEND) and not any(t[0] == "restored" for t in st.auto) and fr.fn.qn != "IndexWriter::rollbackInternal":
                self.found.setdefault("last", "%s:%d %s counts changes as committed that the finished commit point need not contain" % (fr.fn.file, node[1], fr.fn.qn))
        if path[2] == PEND and fr.fn.kind != "ctor" and fr.fn.qn not in ("IndexWriter::initialize",):
            self.nrec += 1
            snaps = [t for t in st.auto if t[0] == "snap"]
            ok = val[:2] == ("u", "cc") and any(t[2] == val[2] and val[3] <= t[3] for t in snaps)
            if not ok:
                self.found.setdefault("pending", "%s:%d %s records a change count that was not read together with the snapshot it commits" % (fr.fn.file, node[1], fr.fn.qn))
        return st


def writer(res, d):
    muts = list_mutators(d)
    res.floor("ways to change the segment list", len(muts), 5)
    own = [f for f in sorted(d.fns.values(), key=lambda f: f.key) if f.body is not None and f.cls == "IndexWriter" and f.file.startswith("src/")]

    def touches(f):
        for n in d.nodes(f):
            if n[0] == "call" and (name_of(n[2]) in muts or name_of(n[2]) in ("DocumentsWriter::applyDeletes", "SegmentInfo::setUseCompoundFile")):
                return True
            if n[0] in ("asg", "un") and any(m[0] == "field" and m[3] in (PEND, LAST) for m in walk(n)):
                return True
        return False
    seeds = [f for f in own if touches(f)]
    counts = {f.key for f in own if any(m[0] == "field" and m[3] == COUNT for n in d.nodes(f) if n[0] in ("asg", "un") for m in walk(n))}
    for _ in range(3):
        counts |= {f.key for f in own if f.acc != "public" and any(n[0] == "call" and n[3] is not None and n[3][0] == "this" and any(t.key in counts and t.acc != "public" for t in d.targets(n, f.cls)) for n in d.nodes(f)) and len(list(d.nodes(f))) < 400}
    tk = {f.key for f in seeds}
    for _ in range(6):
        tk |= {f.key for f in own if any(n[0] == "call" and n[3] is not None and n[3][0] == "this" and any(t.key in tk for t in d.targets(n, f.cls)) for n in d.nodes(f))}
    small = counts - tk            # helpers that count and change nothing themselves
    work = list(seeds); done = set(); nm = nr = 0
    unb = set()
    while work:
        f = work.pop(0)
        if f.key in done:
            continue
        done.add(f.key)
        sim = WriterSim(muts, small | unb, f.key)
        try:
            o = sim.run(f, frozenset())
        except AnalysisError:
            res.errors.append("analysis broken: budget exceeded in " + f.qn); continue
        nm += sim.nmut; nr += sim.nrec
        for k, w in sim.found.items():
            res.bad("%s/%s" % (f.qn, k), w)
        left = sorted({t[1] for v, s in o.R for t in s.auto if t[0] == "dirty"})
        res.ob("%s: %d changes of the segments, %d recordings of the change count; %s" % (f.qn, sim.nmut, sim.nrec, "uncounted on a normal exit, judged in the callers" if left else "each counted before it returns"))
        if left:
            callers = [d.fns[c] for c in d.callers(f.key) if d.fns[c].body is not None]
            if f.acc == "public" or not callers or any(c.cls != "IndexWriter" for c in callers):
                for w in left:
                    res.bad("%s/%s" % (f.qn, w.split(" ", 1)[1]), "%s and %s can return without counting it as a change, so the next commit may skip it" % (w, f.qn))
            else:
                unb.add(f.key)
                for c in callers:
                    done.discard(c.key); work.append(c)
    res.floor("changes of the segment list", nm, 8)
    res.floor("recordings of the change count", nr, 2)


class MarkSim(ElemSim):
    cap = 200
    slicing = True
    steps_cap = 100000

    def __init__(self, ev, asg):
        super().__init__()
        self.ev_ = ev; self.asg_ = asg; self.n = 0

    def track(self, path, typ):
        return path[0] == "v" and (typ in ("bool", "LuceneException") or typ[:2] == "P<")

    def call_relevant(self, n):
        return n[0] == "call" or Sim.call_relevant(self, n)

    def may_throw(self, node, targets, st, fr):
        return Sim.may_throw(self, node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and node[3] is not None and node[3][0] == "this" and fn.cls is not None and fr.fn.cls is not None and \
            fn.acc != "public" and not fn.qn.split("::")[-1].startswith("do")

    def pre_call(self, node, key, rp, vs, st, fr):
        e = self.ev_(node, key, rp, vs, st, fr)
        if e:
            self.n += 1
            st = st.a(st.auto | {("did", e, "%s:%d" % (fr.fn.file, node[1]))})
        return st

    def on_assign(self, path, val, st, node, fr):
        m = self.asg_(path, val)
        if m is not None:
            k, on = m
            st = st.a((st.auto | {("mark", k)}) if on else frozenset(t for t in st.auto if t != ("mark", k)))
        return st


CHG = "IndexReader::_hasChanges"


def readers(res, d):
    n = 0
    # the entry points that change a reader mark it
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.cls != "IndexReader" or not f.file.startswith("src/"):
            continue
        if not any(x[0] == "call" and name_of(x[2]).split("::")[-1] in ("doDelete", "doUndeleteAll", "doSetNorm") for x in d.nodes(f)):
            continue
        sim = MarkSim(lambda node, key, rp, vs, st, fr: name_of(key).split("::")[-1] if name_of(key).split("::")[-1] in ("doDelete", "doUndeleteAll", "doSetNorm") else None,
                      lambda p, v: ("chg", v == TRUE) if p[0] == "f" and p[2] == CHG else None)
        o = sim.run(f, frozenset())
        for v, s in o.R:
            for t in s.auto:
                if t[0] == "did":
                    n += 1
                    if ("mark", "chg") not in s.auto:
                        res.bad("%s/%s" % (f.qn, t[1]), "%s %s calls %s and returns without marking the reader as changed, so closing it loses the change" % (t[2], f.qn, t[1]))
        res.ob("%s marks the reader as changed" % f.qn)
    # what a change of a segment reader touches is marked as to be written
    D = "SegmentReader::deletedDocs"; DD = "SegmentReader::deletedDocsDirty"; ND = "SegmentReader::normsDirty"; NM = "Norm::dirty"
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.cls not in ("SegmentReader", "Norm") or not f.file.startswith("src/"):
            continue

        def ev(node, key, rp, vs, st, fr):
            q = name_of(key)
            if q in ("BitVector::set", "BitVector::getAndSet", "BitVector::clear") and rp is not None and rp[0] == "f" and rp[2] == D:
                return "deletion"
            if q == "Norm::copyOnWrite":
                return "norm"
            return None

        def asg(p, v):
            if p[0] == "f" and p[2] in (DD, ND, NM):
                return (p[2], v == TRUE)
            return None
        if f.qn == "Norm::copyOnWrite":
            sim = MarkSim(lambda *a: None, asg)
            o = sim.run(f, frozenset())
            for v, s in o.R:
                n += 1
                if ("mark", NM) not in s.auto:
                    res.bad("Norm::copyOnWrite/dirty", "%s:%d Norm::copyOnWrite hands out norms to be changed without marking them as to be written" % (f.file, f.line))
            res.ob("Norm::copyOnWrite marks the norms")
            continue
        if not any(x[0] == "call" and name_of(x[2]) in ("BitVector::set", "BitVector::getAndSet", "BitVector::clear", "Norm::copyOnWrite") for x in d.nodes(f)):
            continue
        sim = MarkSim(ev, asg)
        o = sim.run(f, frozenset())
        for v, s in o.R:
            for t in s.auto:
                if t[0] == "did":
                    n += 1
                    k = DD if t[1] == "deletion" else ND
                    if ("mark", k) not in s.auto:
                        res.bad("%s/%s" % (f.qn, t[1]), "%s %s makes a %s and returns without marking it as to be written" % (t[2], f.qn, t[1]))
        res.ob("%s marks what it changes" % f.qn)
    res.floor("marked changes", n, 5)


class ReportSim(MarkSim):
    """whether anything was deleted is reported to the caller"""
    def __init__(self, fns):
        super().__init__(None, lambda p, v: None)
        self.fns = fns

    def pre_call(self, node, key, rp, vs, st, fr):
        return st

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key)
        did = st.a(st.auto | {("did", fr.fn.file, node[1])})
        if q.split("::")[-1] == "deleteDocument":
            xs.append((("any",), did))
            self.n += 1
            return [(VOID, did)]
        if any(t.key in self.fns for t in self.targets(node, None, rp, st, fr)):
            xs.append((("any",), did))
            self.n += 1
            return [(TRUE, did), (FALSE, st)]
        return None


def reported(res, d):
    fns = {}
    for _ in range(3):
        for f in d.fns.values():
            if f.body is None or f.cls not in ("DocumentsWriter", "IndexWriter") or f.ret != "bool":
                continue
            for n in d.nodes(f):
                if n[0] == "call" and (f.cls == "DocumentsWriter" and name_of(n[2]) == "IndexReader::deleteDocument" or
                                       any(t.key in fns and t.cls == f.cls for t in d.targets(n, None))):
                    fns[f.key] = f
    n = 0
    for f in sorted(fns.values(), key=lambda f: f.key):
        if f.qn.startswith("IndexWriter"):
            continue
        sim = ReportSim(set(fns) - {f.key})
        o = sim.run(f, frozenset())
        n += sim.n
        for v, s in o.R:
            ds = [t for t in s.auto if t[0] == "did"]
            if ds and v != TRUE:
                res.bad("%s/reported" % f.qn, "%s:%d %s deletes documents and can return without reporting it, so they are missing from the next commit" % (ds[0][1], ds[0][2], f.qn))
        res.ob("%s reports every deletion it makes" % f.qn)
    res.floor("reported deletions", n, 4)


def c38(res, tier):
    d = db()
    writer(res, d)
    readers(res, d)
    reported(res, d)


PROPS = [P(
    "C38", "No change is left out of the next commit",
    "Whatever changes which segments an index writer holds, or changes one of them (a flush, applied deletions, a finished merge, added indexes, deleting everything), also counts as a change before the operation returns, so that the next commit or close writes it. "
    "A deletion, undeletion or norm change made through a reader marks that reader, and what it changed, as to be written, and applying buffered deletions reports whether anything was deleted. "
    "A commit only counts those changes as committed that the snapshot it wrote contains: the count it records is the one read together with that snapshot.",
    "histories", "every sequence of changes, commits and closes; every path through the code that makes a change",
    "a change that is not counted is silently lost when the writer is closed without any further change; the tests commit after sequences in which some other step counts as well",
    ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/IndexReader.cpp", "src/core/index/SegmentReader.cpp"],
    [("change count", "IndexWriter::checkpoint, changeCount, pendingCommitChangeCount, startCommit, finishCommit"), ("reader marks", "IndexReader::_hasChanges, SegmentReader::deletedDocsDirty, normsDirty, Norm::dirty"), ("report of deletions", "DocumentsWriter::applyDeletes")],
    "path-sensitive typestate (clean/dirty) of every method that can change the writer's segment list, unbalanced helpers judged in their callers; provenance of the recorded change count (same lock region as the snapshot, before any later count); mark-before-return for reader changes",
    "restoring a remembered list of segments counts as going back to its state; of the description of a held segment only the compound flag is followed", c38)]
