"""C01: what a commit refers to is durable before the commit is visible."""
from ..reg import P
from ..db import db, name_of, walk, AnalysisError
from ..elems import ElemSim
from ..sim import Sim, NUL, TRUE, FALSE, NOEXC
from ..sym import SymSim, flat

EXEMPT = {"CheckIndex::fixIndex": "writes a subset of the segments of an existing commit, whose files are durable already"}
FILES = "SegmentInfos::files"
SYNC = "sync"
MUT = ("add", "remove", "clear", "addAll", "set", "put", "insert", "removeLast", "pruneDeletedSegments", "read", "removeAt")
PREP = ("SegmentInfos::prepareCommit", "SegmentInfos::commit")
FIN = ("SegmentInfos::finishCommit", "SegmentInfos::commit")


def is_dir_call(d, q, m):
    c, _, n = q.rpartition("::")
    return n == m and c in d.classes and d.isa(c, "Directory")


class CommitSim(ElemSim):
    """tokens: need/skip/all per enumeration of the referenced files, done per synced name, prepared/committed per infos"""
    cap = 300

    def __init__(self, res):
        super().__init__()
        self.res = res; self.found = {}; self.prepared = 0; self.check = 0

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException", "String") or typ[:2] == "P<" or typ.startswith(("HashSet<", "boost::unordered", "Collection<", "std::_Rb", "__gnu"))
        return False

    slicing = True

    def call_relevant(self, n):
        if n[0] == "call" and n[2].startswith(("HashSet::", "Collection::", "Set::")):
            return True
        return Sim.call_relevant(self, n)

    def bad(self, fr, node, what):
        self.found.setdefault((fr.fn.qn, what), (fr.fn.file, node[1] if node else fr.fn.line))

    def inline(self, fn, node, st, fr):
        if node[0] != "call" or fn.cls is None or fr.fn.cls is None:
            return False
        if fn.qn in PREP + FIN or fn.cls != fr.fn.cls and not self.db.isa(fr.fn.cls, fn.cls):
            return False
        return fn.key in self.interesting()

    def interesting(self):
        """functions of the same class that sync, note a synced file or take part in the commit themselves"""
        r = getattr(self.db, "_commit_fns", None)
        if r is None:
            d = self.db
            r = set()
            for f in d.fns.values():
                if f.body is None or not f.cls:
                    continue
                for n in d.nodes(f):
                    if n[0] == "call":
                        q = name_of(n[2])
                        if is_dir_call(d, q, "sync") or q in PREP + FIN or q == "IndexFileDeleter::checkpoint" or \
                                (n[3] is not None and n[3][0] == "field" and n[3][3].split("::")[-1] in ("synced", "syncing") and q.startswith("HashSet::")):
                            r.add(f.key)
            r = {k for k in r if d.fns[k].cls in ("IndexWriter", "DirectoryReader", "SegmentInfos") or d.isa(d.fns[k].cls, "IndexReader")}
            # helpers in between
            ch = True
            while ch:
                ch = False
                for f in d.fns.values():
                    if f.key in r or f.body is None or not f.cls or f.cls not in ("IndexWriter", "DirectoryReader", "SegmentInfos") or f.acc == "public":
                        continue
                    if any(n[0] == "call" and n[3] is not None and n[3][0] == "this" and any(t.key in r and t.qn not in ("IndexWriter::startCommit", "IndexWriter::finishCommit", "IndexWriter::initialize") for t in d.targets(n, f.cls)) for n in d.nodes(f)):
                        r.add(f.key); ch = True
            d._commit_fns = r
        return r

    # -- enumerations
    def drop(self, st, pred):
        return st.a(frozenset(t for t in st.auto if not pred(t)))

    def on_begin(self, C, st, node, fr):
        st = self.drop(st, lambda t: t[0] in ("need", "skip", "all", "wait") and t[1] == C)
        return st.a(st.auto | {("wait", C, t[2]) for t in ()})

    def on_iter(self, C, st, node, fr):
        a = set(st.auto)
        if ("need", C) in a:
            a.add(("skip", C))
        a.add(("need", C))
        a -= {("done", ("u", "it", C)), ("busy", ("u", "it", C))}
        return st.a(frozenset(a))

    def on_iter_end(self, C, st, node, fr):
        a = set(st.auto)
        if not ("need", C) in a and not ("skip", C) in a:
            a.add(("all", C))
        return st.a(frozenset(a))

    def settle(self, st, v, wait=None):
        if v[:2] == ("u", "it"):
            a = set(st.auto) - {("need", v[2])}
            if wait is not None:
                a.add(("wait", v[2], wait))
            return st.a(frozenset(a))
        return st

    def age(self, st, sid):
        st = super().age(st, sid)

        def has(v):
            return v == sid or isinstance(v, tuple) and any(has(x) for x in v if isinstance(x, tuple))
        return self.drop(st, has)

    def on_branch(self, c, v, t, f, fr):
        if v[0] == "u" and len(v) == 5 and v[1] == "contains":
            _, _, which, el, _ = v
            if which == "synced":
                t = [self.settle(x, el) for x in t]
            if which == "syncing":
                t = [x.a(x.auto | {("busy", el)}) for x in t]
        return t, f

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key)
        d = self.db
        if q == FILES:
            tag = ("u", "files", rp, vs[1] if len(vs) > 1 else None)
            self.may(node, key, st, fr, xs)
            st = self.drop(st, lambda t: t[0] in ("need", "skip", "all", "wait") and t[1] == tag)
            return [(tag, st)]
        if q == "HashSet::contains" and rp and rp[0] == "f" and vs:
            w = rp[2].split("::")[-1]
            if w in ("synced", "syncing"):
                return [(("u", "contains", w, vs[0], id(node)), st)]
        if q == "SegmentInfos::read":
            e = self.drop(st, lambda t: t[0] in ("all", "loaded") and rp in t)
            xs.append((("any",), e.a(e.auto | {("empty", rp)})))      # a failed read leaves the description empty (checked below)
            st = self.drop(st, lambda t: t[0] == "all" and t[1][:3] == ("u", "files", rp) or t == ("empty", rp))
            return [(("void",), st.a(st.auto | {("loaded", rp)}))]
        if q == "HashSet::addAll" and rp and rp[0] == "f" and rp[2].split("::")[-1] == "synced" and vs:
            self.check += 1
            C = vs[0][2] if vs[0][:2] == ("u", "it") else None
            if C is None or C[:2] != ("u", "files") or not (("committed", C[2]) in st.auto or ("loaded", C[2]) in st.auto):
                self.bad(fr, node, "notes files as synced that do not belong to a commit just read or written")
            return [(("void",), st)]
        if q == "HashSet::add" and vs and rp:
            if rp[0] == "f" and rp[2].split("::")[-1] == "synced":
                self.check += 1
                if ("done", vs[0]) not in st.auto and vs[0][:2] == ("u", "it"):
                    self.bad(fr, node, "notes a file as synced although no sync of it succeeded")
                return [(FALSE, st)]
            if ("busy", vs[0]) in st.auto:
                return [(FALSE, self.settle(st, vs[0], self.cval(rp, st)))]
        if is_dir_call(d, q, "sync") and vs:
            xs.append((("any",), st))
            st = self.settle(st, vs[0])
            return [(("void",), st.a(st.auto | {("done", vs[0])}))]
        if q in PREP:
            self.prepared += 1
            ok = ("empty", rp) in st.auto
            for t in st.auto:
                if t[0] == "all" and t[1][:3] == ("u", "files", rp):
                    waits = [w for w in st.auto if w[0] == "wait" and w[1] == t[1]]
                    if all(("all", w[2]) in st.auto for w in waits):
                        ok = True
            if not ok and fr.fn.qn != "SegmentInfos::commit":
                self.bad(fr, node, "writes the commit point although not every file it refers to has been synced on this path")
        if q in PREP + FIN:
            xs.append((("any",), st))
            if q in PREP:
                st = st.a(st.auto | {("prepared", rp)})
            if q in FIN:
                st = st.a(st.auto | {("committed", rp)})
            return [(("void",), st)]
        if q == "IndexFileDeleter::checkpoint" and len(vs) == 2:
            self.check += 1
            if vs[1] == TRUE and ("committed", rp if False else self.as_path(vs[0])) not in st.auto:
                self.bad(fr, node, "tells the file deleter about a commit that has not been written on this path, so files of the previous commit may go first")
        if rp is not None and q.startswith("SegmentInfos::") and q.split("::")[1] in MUT:
            st = self.drop(st, lambda t: t[0] == "all" and t[1][:3] == ("u", "files", rp) or t == ("empty", rp))
            if q == "SegmentInfos::clear":
                st = st.a(st.auto | {("empty", rp)})
            r = self.opaque(node, key, rp, vs, st, fr, xs, d.targets(node, None))
            return r
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def as_path(self, v):
        return v[1] if v[0] == "p" else v

    def may(self, node, key, st, fr, xs):
        if self.may_throw(node, self.db.targets(node, None), st, fr):
            xs.append((("any",), st))

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] == "IndexWriter::pendingCommit" and val != NUL:
            self.check += 1
            if ("prepared", self.as_path(val)) not in st.auto:
                self.bad(fr, node, "a commit counts as prepared although its commit point has not been written")
        if path[0] == "f" and path[2] == "IndexWriter::lastCommitChangeCount" and fr.fn.qn not in ("IndexWriter::rollbackInternal", "IndexWriter::initialize") and fr.fn.kind != "ctor":
            self.check += 1
            if not any(t[0] == "committed" for t in st.auto):
                self.bad(fr, node, "changes count as committed before the commit point has been written")
        # a name now denotes something else
        st = self.drop(st, lambda t: t[0] in ("prepared", "committed", "empty", "loaded") and t[1] == path)
        return st


def c01(res, tier):
    d = db()
    sim0 = CommitSim(res)
    roots = []
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or not f.file.startswith("src/") or "test" in f.file:
            continue
        if f.qn.startswith("IndexFileDeleter::") or f.qn in EXEMPT:
            continue
        for n in d.nodes(f):
            if n[0] == "call" and (name_of(n[2]) in PREP + FIN or name_of(n[2]) == "IndexFileDeleter::checkpoint" and n[4] and n[4][-1] == ["bool", n[4][-1][1], True]):
                roots.append(f); break
    seen = 0
    for f in roots:
        sim = CommitSim(res)
        # private helpers are judged inside their callers
        callers = [c for c in d.callers(f.key) if c in sim0.interesting() and d.fns[c].cls == f.cls]
        starts = [f] if not callers or f.acc == "public" or f.qn in ("IndexWriter::startCommit", "IndexWriter::finishCommit") else [d.fns[c] for c in callers]
        for s in starts:
            sim = CommitSim(res)
            try:
                sim.run(s, frozenset())
            except AnalysisError:
                res.errors.append("analysis broken: budget exceeded in " + s.qn)
                continue
            seen += sim.prepared
            res.ob("%s: %d commit-point writes and %d dependent steps checked on all paths" % (s.qn, sim.prepared, sim.check))
            for (q, w), (fi, ln) in sim.found.items():
                res.bad("%s/%s" % (q, w[:40]), "%s:%d %s %s" % (fi, ln, q, w))
    res.floor("commit roots", len(roots), 4)
    res.floor("commit-point writes", seen, 3)


# ---- the commit point itself ------------------------------------------------------------------------------------------
from ..trace import TraceSim, fn as fn_of

PSO = "SegmentInfos::pendingSegnOutput"


def seg_events(d):
    def event(node, key, rp, vs, st, fr):
        q = name_of(key); m = q.rpartition("::")[2]; c = q.rpartition("::")[0]
        if c in d.classes and (d.isa(c, "Directory")):
            if m == "createOutput":
                return "create-gen" if vs and "SEGMENTS_GEN" in repr(vs[0]) else "create"
            if m == "sync": return "sync"
            if m == "deleteFile": return "delete"
        if c in d.classes and d.isa(c, "IndexOutput"):
            g = "gen-" if rp is not None and rp[0] == "u" and False else ""
            if m == "finishCommit": return "finish"
            if m == "prepareCommit": return "prepare"
            if m == "close": return "close"
            if m.startswith("write"): return "write"
        return None
    return event


def commit_point(res, d):
    """the commit point: written completely, checksum last, synced, cleaned up on failure"""
    def asg(path, val, st, node, fr):
        if path[0] == "f" and path[2] == PSO:
            return "forget" if val == NUL else "pending"
        if path[0] == "f" and path[2] == "SegmentInfos::lastGeneration":
            return "lastgen"
        return None
    f = fn_of(d, "SegmentInfos::write")
    g = fn_of(d, "SegmentInfos::finishCommit")
    if f is None or g is None:
        res.errors.append("analysis broken: SegmentInfos::write/finishCommit not found"); return
    def follow(fn, node, fr):
        return True if fn.qn.startswith(("SegmentInfos::", "SegmentInfo::")) and fn.qn in ("SegmentInfos::rollbackCommit",) else None
    def bad(f, w, what):
        res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (f.file, f.line, f.qn, what))
    sim = TraceSim(seg_events(d), follow, assign_event=asg)
    o = sim.run(f, ())
    for v, s in o.R:
        res.ob("SegmentInfos::write normal path: " + " ".join(s.auto))
        t = s.auto
        if "create" not in t or "prepare" not in t or "pending" not in t:
            bad(f, "incomplete", "returns without having written, prepared and remembered the commit point: " + " ".join(t)); continue
        if "write" in t[t.index("prepare"):] or t.index("pending") < t.index("prepare"):
            bad(f, "order", "writes data after the checksum, or remembers the commit point before it is prepared: " + " ".join(t))
    for e, s in o.X:
        t = s.auto
        if "create" in t:
            res.ob()
            k = t.index("create")
            if not any(x in ("close", "close!") for x in t[k:]) or not any(x in ("delete", "delete!") for x in t[k:]):
                bad(f, "cleanup", "fails and leaves a partly written commit point behind: " + " ".join(t))
            if "pending" in t and "forget" not in t:
                bad(f, "pending", "fails but still counts as prepared: " + " ".join(t))
    sim = TraceSim(seg_events(d), follow, assign_event=asg)
    o = sim.run(g, ())
    n = 0
    for v, s in o.R:
        t = list(s.auto)
        n += 1
        res.ob("SegmentInfos::finishCommit normal path: " + " ".join(t))
        for a, b in (("finish", "close"), ("close", "sync"), ("finish", "sync")):
            if a not in t or b not in t or t.index(a) > t.index(b):
                bad(g, a + "-" + b, "returns without %s before %s: %s" % (a, b, " ".join(t)))
        if "lastgen" in t and "sync" in t and t.index("lastgen") < t.index("sync"):
            bad(g, "lastgen", "counts the commit as done before the commit point is synced: " + " ".join(t))
        if "create-gen" in t and "sync" in t and t.index("create-gen") < t.index("sync"):
            bad(g, "gen", "points the generation file at a commit point that is not yet synced: " + " ".join(t))
    for e, s in o.X:
        t = list(s.auto)
        if not t:
            continue
        res.ob()
        if not any(x in ("delete", "delete!") for x in t):
            bad(g, "failed-commit-left", "fails but leaves the commit point in place: " + " ".join(t))
        if "forget" not in t:
            bad(g, "pending", "fails but still counts as prepared: " + " ".join(t))
        if "lastgen" in t:
            bad(g, "lastgen-failed", "counts a failed commit as done: " + " ".join(t))
    res.floor("finishCommit paths", n, 1)


class ChkSim(SymSim):
    def inline(self, fn, node, st, fr):
        return node[0] == "call" and node[3] is not None and node[3][0] == "this" and fn.name != "getChecksum"

    def __init__(self):
        super().__init__(); self.log = []

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); m = q.rpartition("::")[2]
        if rp is not None and rp[:1] == ("f",) and rp[2] == "ChecksumIndexOutput::main":
            v = ("u", "pos") if m == "getFilePointer" else ("void",)
            return [(v, st.a(st.auto + ((m,) + tuple(vs),)))]
        if m == "getChecksum":
            return [(("u", "sum"), st.a(st.auto + (("getChecksum",),)))]
        if rp is not None and "checksum" in repr(rp) and (m.startswith("process") or q.startswith("boost::crc")):
            return [(("void",), st.a(st.auto + (("digest",) + tuple(vs),)))]
        return None


def checksum(res, d):
    def bad(f, w, what):
        res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (f.file, f.line, f.qn, what))
    f = fn_of(d, "ChecksumIndexOutput::prepareCommit")
    for v, s in ChkSim().run(f, ()).R:
        t = s.auto; res.ob("prepareCommit: %s" % (t,))
        w = [x for x in t if x[0] == "writeLong"]
        if len(w) != 1 or w[0][1] == ("u", "sum"):
            bad(f, "placeholder", "already writes the valid checksum (or none) while the commit is only prepared")
            continue
        i = t.index(w[0])
        if ("flush",) not in t[i:] or ("seek", ("u", "pos")) not in t[i:] or ("getFilePointer",) not in t[:i]:
            bad(f, "rewind", "does not flush and return to the position of the checksum")
    f = fn_of(d, "ChecksumIndexOutput::finishCommit")
    for v, s in ChkSim().run(f, ()).R:
        res.ob("finishCommit: %s" % (s.auto,))
        if [x for x in s.auto if x[0].startswith("write")] != [("writeLong", ("u", "sum"))]:
            bad(f, "checksum", "does not end the commit point with its checksum")
    for m in ("writeByte", "writeBytes"):
        for f in [f for f in d.fns.values() if f.qn == "ChecksumIndexOutput::" + m and f.body]:
            for v, s in ChkSim().run(f, ()).R:
                res.ob("%s: %s" % (m, s.auto))
                dg = [x for x in s.auto if x[0] == "digest"]; w = [x for x in s.auto if x[0] == m]
                if len(dg) != 1 or len(w) != 1:
                    bad(f, "digest", "does not both write the bytes and count them in the checksum")


class SyncSim(SymSim):
    """a file-system sync succeeds only when the operating system said so"""

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and (fn.file.startswith("src/core/store") or fn.qn.startswith("FileUtils::")) and fn.name != "ensureOpen"

    def may_throw(self, node, targets, st, fr):
        return Sim.may_throw(self, node, targets, st, fr)

    def result(self, e, key, rp, vs, st, fr):
        if name_of(key) in ("fsync", "fdatasync"):
            return ("u", "fsync")
        return super().result(e, key, rp, vs, st, fr)

    def opaque(self, e, key, rp, vs, st, fr, xs, ts):
        if name_of(key) in ("fsync", "fdatasync"):
            return [(("u", "fsync"), st.a("tried"))]
        return super().opaque(e, key, rp, vs, st, fr, xs, ts)

    def compare(self, c, a, b, st, fr):
        if c[2] == "==" and ("u", "fsync") in (a, b):
            k = b if a == ("u", "fsync") else a
            if k == ("k", 0):
                return [st.a("synced")], [st.a("failed")]
            if k == ("k", -1):
                return [st.a("failed")], [st.a("synced")]
        if c[2] == "<" and ("u", "fsync") == a:
            return [st.a("failed")], [st.a("synced")]
        return super().compare(c, a, b, st, fr)

    def truth(self, c, v, st, fr):
        if v == ("u", "fsync"):
            return [st.a("failed")], [st.a("synced")]
        return super().truth(c, v, st, fr)


def fs_sync(res, d):
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.name == "sync" and f.cls and d.isa(f.cls, "FSDirectory") and f.body is not None:
            n += 1
            sim = SyncSim()
            for v, s in sim.run(f, "no").R:
                res.ob("%s returns normally only after a successful fsync" % f.qn)
                if s.auto != "synced":
                    res.bad("%s/unsynced" % f.qn, "%s:%d %s can return normally although the file was not synced (%s)" % (f.file, f.line, f.qn, s.auto))
    res.floor("file-system sync operations", n, 1)


def run01(res, tier):
    d = db()
    c01(res, tier)
    commit_point(res, d)
    checksum(res, d)
    fs_sync(res, d)
    close_flushes(res, d)


def close_flushes(res, d):
    n = 0
    for c in sorted(d.subs("BufferedIndexOutput")):
        f = d.method(c, "close()")
        if f is None or f.body is None or d.classes[c].file.startswith("src/test"):
            continue
        n += 1

        def event(node, key, rp, vs, st, fr):
            return "flush" if name_of(key).endswith("::flushBuffer") and rp == ("this",) else None

        def asg(path, val, st, node, fr):
            return "closed" if path[0] == "f" and path[1] == ("this",) and not path[2].startswith("BufferedIndexOutput::") else None
        sim = TraceSim(event, assign_event=asg)
        sim.slicing = False
        for v, s in sim.run(f, (), cls=c).R:
            res.ob("%s of %s writes the buffered bytes first: %s" % (f.qn, c, " ".join(s.auto)))
            if "closed" in s.auto and "flush" not in s.auto[:s.auto.index("closed")] or (not s.auto and f.cls == "BufferedIndexOutput"):
                res.bad("%s/noflush" % f.qn, "%s:%d %s closes the output without writing the buffered bytes" % (f.file, f.line, f.qn))
    res.floor("buffered outputs", n, 2)


SIM = ["lpp/sim.py, lpp/sym.py, lpp/elems.py, lpp/trace.py (abstract interpreter)"]
PROPS = [P(
    "C01", "A commit is durable before it counts",
    "The commit point receives its valid checksum, replaces the previous commit for the file deleter and counts as committed only after every file it refers to has been successfully synced to stable storage; the commit point is itself synced before the commit is reported as done, and a file counts as synced only when the operating system confirmed it. A commit point that could not be written, finished or synced is removed again and does not count as prepared or committed.",
    ["crash_points", "fault_sequences"], "every path through the commit code of writer, reader and segment list, with a failure at every call that can fail, any number of files and threads syncing",
    "A missing or misplaced sync is invisible until the machine loses power at the right moment; the tests simulate a few crashes on a memory directory.",
    ["src/core/index/IndexWriter.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentInfos.cpp", "src/core/store"],
    [("startCommit, finishCommit, startSync/finishSync", "IndexWriter.cpp"), ("doCommit", "DirectoryReader.cpp"), ("write, prepareCommit, finishCommit", "SegmentInfos.cpp"), ("two-phase checksum", "ChecksumIndexOutput.cpp"), ("fsync", "FSDirectory.cpp")],
    "path-sensitive typestate over the commit protocol with per-element tracking of the synced file set and exceptional edges",
    "Decides the order and completeness of syncs, checksum, deletion and bookkeeping on all paths; trusts that fsync does what it promises. CheckIndex::fixIndex is exempt (writes a subset of an existing commit).",
    run01, trusted=SIM)]
