"""C07 closed objects refuse use; C17 read-only readers never change an index; C12 the write lock; C28 locks exclude."""
from ..reg import P
from ..guard import GuardSim, FieldGuardSim, field_call
from ..sim import Sim, TRUE, FALSE, NUL, AnalysisError
from ..db import db, name_of, walk, is_node, strip_type
from ..equality import root

# operations that must refuse a closed object, per class family; every class of the family that defines one is examined
OPS = {
    "IndexWriter": """addDocument addIndexes addIndexesNoOptimize commit deleteAll deleteDocuments expungeDeletes getAnalyzer
        getDirectory getInfoStream getMaxBufferedDeleteTerms getMaxBufferedDocs getMaxFieldLength getMergePolicy
        getMergeScheduler getRAMBufferSizeMB getReader getReaderTermsIndexDivisor getSimilarity getTermIndexInterval
        getWriteLockTimeout hasDeletions numRamDocs optimize prepareCommit ramSizeInBytes rollback setInfoStream
        setMaxBufferedDeleteTerms setMaxBufferedDocs setMaxFieldLength setMergePolicy setMergeScheduler setRAMBufferSizeMB
        setReaderTermsIndexDivisor setSimilarity setTermIndexInterval setWriteLockTimeout updateDocument""",
    "IndexReader": """incRef decRef deleteDocument deleteDocuments undeleteAll setNorm flush docFreq document getFieldNames
        getTermFreqVector getTermFreqVectors getVersion hasNorms norms reopen termDocs termPositions terms""",
    "Directory": """createOutput deleteFile fileExists fileLength fileModified listAll openInput sync touchFile sizeInBytes
        getFile""",
}
SKIP = {"MemoryIndexReader", "FakeReader",                       # hold no files, never closed
        "CompoundFileReader", "FileSwitchDirectory", "Directory"}  # own protocol / pure delegation / abstract
EXEMPT = {"SegmentReader::termDocs(P<Term>)"}                    # null term: lists all documents without touching files
FLAG = {"IndexWriter": [("IndexWriter::closed", TRUE)], "IndexReader": [("IndexReader::refCount", ("k", 0)), ("IndexReader::refCount", ("k", -1))],
        "Directory": [("Directory::isOpen", FALSE)]}


class FlagSim(Sim):
    """does the guard ever return when the closed flag is set"""

    def track(self, path, typ):
        return True

    def refine_field(self, path, typ):
        return True

    def may_throw(self, node, targets, st, fr):
        return False

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and (node[3] is None or node[3][0] == "this") and fn.cls is not None

    slicing = False


class ExitSim(FlagSim):
    """the flag at the end of closing"""

    def __init__(self, fields):
        super().__init__()
        self.fields = fields
        self.writes = {f.key for f in self.db.fns.values() if f.body is not None and any(x[0] in ("asg", "un") and x[3][0] == "field" and x[3][3] in fields for x in walk(f.body) if len(x) > 3 and isinstance(x[3], list))}

    def track(self, path, typ):
        return path[0] == "f" and path[2] in self.fields

    refine_field = track

    def havocable(self, p):
        return False

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr) and (fn.key in self.writes or any(t.key in self.writes for x in self.db.calls(fn) for t in self.db.targets(x, fn.cls)))


# the open state in which closing is followed
START = {("IndexReader", "close"): [("IndexReader::refCount", ("k", 5)), ("IndexReader::closed", FALSE)],
         ("IndexWriter", "closeInternal"): [("IndexWriter::closed", FALSE)]}


def never_returns(f, cls, env):
    o = FlagSim().run(f, cls=cls, env=env)
    return not o.R


def is_ensure(node, key, rp, vs, st, fr):
    return name_of(key).split("::")[-1] == "ensureOpen" and rp == ("this",)


def src(c):
    return c in db().classes and "/test/" not in db().classes[c].file and not db().classes[c].file.startswith("src/test")


def run07(res, tier):
    d = db()
    n = 0
    for base, ops in OPS.items():
        ops = set(ops.split())
        seen = set()
        for c in d.subs(base):
            if not src(c) or c in SKIP:
                continue
            for nm in sorted({m[1] for m in d.classes[c].methods} & ops):
                for f in d.byqn.get(c + "::" + nm, ()):
                    if f.acc != "public" or f.static or f.body is None or f.key in seen or f.key in EXEMPT:
                        continue
                    seen.add(f.key)
                    s = FieldGuardSim(is_ensure, field_call, c, noinline=("verbose", "message"))
                    o = s.run(f, auto=False, cls=c)
                    n += 1
                    res.ob("%s: every path refuses a closed object before it uses the object's parts" % f.key)
                    res.count("path states explored", s.steps)
                    for (fl, line, qn, ev) in sorted(s.bad)[:3]:
                        res.bad("%s/%s" % (f.key, ev), "%s:%d %s: a path from %s %s before the check that the object is open"
                                % (fl, line, qn, f.key, ev))
                    if any(not x.auto for v, x in o.R):
                        res.bad("%s/unchecked" % f.key, "%s:%d %s returns normally on a path that never checks that the object is open"
                                % (f.file, f.line, f.key))
        # the check itself
        for c in d.subs(base):
            if not src(c):
                continue
            for f in d.byqn.get(c + "::ensureOpen", ()):
                if f.body is None:
                    continue
                for fld, val in FLAG[base]:
                    res.ob("%s never returns when %s shows a closed object" % (f.key, fld))
                    if not never_returns(f, c, {("f", ("this",), fld): val}):
                        res.bad("%s/returns" % f.key, "%s:%d %s can return normally although %s = %s" % (f.file, f.line, f.key, fld, val[1]))
    # closing sets the flag
    from ..mustset import Must
    for c, fn, fld, val in (("FSDirectory", "close", "Directory::isOpen", FALSE), ("RAMDirectory", "close", "Directory::isOpen", FALSE),
                            ("IndexReader", "close", "IndexReader::closed", TRUE), ("IndexReader", "close", "IndexReader::refCount", ("k", 4)),
                            ("IndexWriter", "closeInternal", "IndexWriter::closed", TRUE)):
        for f in d.byqn.get(c + "::" + fn, ()):
            res.ob("%s marks the object closed" % f.key)
            s = ExitSim({fld} | {k for k, v in START.get((c, fn), ())})
            o = s.run(f, cls=c, env={("f", ("this",), k): v for k, v in START.get((c, fn), ())})
            for v, x in o.R:
                if x.env.get(("f", ("this",), fld)) != val:
                    res.bad("%s/flag" % f.key, "%s:%d a normal path through %s leaves the object open" % (f.file, f.line, f.key))
    res.floor("entry points checked", n, 150)


class Light(Sim):
    """only the read-only wish is followed"""

    def track(self, path, typ):
        return typ == "bool" and path[-1 if path[0] == "f" else 1].split("@")[0].lower().endswith("readonly")

    def keep(self, c, v, fr):
        return False

    def may_throw(self, node, targets, st, fr):
        return False

    def call_relevant(self, n):
        return True


def tail(key):
    return name_of(key).split("::")[-1]


# ---- C17 -------------------------------------------------------------------------------------------------------------
DO = ("doDelete", "doUndeleteAll", "doSetNorm")


def lock_first(res, d):
    n = 0

    def guard(node, key, rp, vs, st, fr):
        return tail(key) == "acquireWriteLock" and rp == ("this",)

    def event(node, key, rp, vs, st, fr):
        if tail(key) in DO and rp == ("this",):
            return "calls " + tail(key)

    class S(GuardSim):
        def asg_event(self, path, fr):
            return path[0] == "f" and root(path) == ("this",) and path[2] == "IndexReader::_hasChanges"

    for nm in ("deleteDocument", "undeleteAll", "setNorm", "deleteDocuments"):
        for c in d.subs("IndexReader"):
            if not src(c):
                continue
            for f in d.byqn.get(c + "::" + nm, ()):
                if f.body is None or f.static:
                    continue
                s = S(guard, event, c)
                s.run(f, auto=False, cls=c)
                n += 1
                res.ob("%s takes the write lock before it changes anything" % f.key)
                for (fl, line, qn, ev) in sorted(s.bad):
                    res.bad("%s/%s" % (f.key, ev), "%s:%d %s: a path from %s %s before the write lock is acquired" % (fl, line, qn, f.key, ev))
    return n


class StaleSim(Sim):
    """auto: (write lock obtained, version compared since then)"""
    slicing = False

    def track(self, path, typ):
        return path[0] == "v" or path[0] == "f" and path[2].startswith("DirectoryReader::")

    def call_relevant(self, n):
        return True

    def havocable(self, p):
        return False

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and node[3] is not None and node[3][0] == "this" and tail(node[2]) != "ensureOpen" and not tail(node[2]).startswith("shared_from")

    def on_call(self, e, key, rp, vs, st, fr, xs):
        q = name_of(key)
        if q == "Lock::obtain":
            xs.append((("any",), st))
            return [(TRUE, st.a((True, False))), (FALSE, st)]
        if q == "SegmentInfos::readCurrentVersion":
            xs.append((("any",), st))
            return [(("u", "current", st.auto[0]), st)]
        return None

    def compare(self, c, a, b, st, fr):
        t, f = super().compare(c, a, b, st, fr)
        seen = ("p", ("f", ("this",), "DirectoryReader::maxIndexVersion")); cur = ("u", "current", True)
        ok = lambda l: [x.a((x.auto[0], True)) for x in l]
        if c[2] == "<" and (a, b) == (seen, cur):
            f = ok(f)
        if c[2] == "==" and {a, b} == {seen, cur}:
            t = ok(t)
        if c[2] == "<" and (a, b) == (cur, seen):
            t = ok(t)
        return t, f


def stale_test(res, d):
    """the version test comes after the lock, compares the right numbers, and the remembered version is the index's own"""
    this = ("this",)
    for g in d.byqn.get("DirectoryReader::acquireWriteLock", ()):
        s = StaleSim()
        o = s.run(g, auto=(False, False), cls="DirectoryReader", env={("f", this, "DirectoryReader::segmentInfos"): ("nn", 0, 0), ("f", this, "DirectoryReader::writeLock"): NUL})
        res.ob("a reader that obtains the write lock compares the version of the index with its own before it may change anything")
        for v, x in o.R:
            if x.auto != (True, True):
                res.bad(g.qn + "/version", "%s:%d %s can grant the write lock without having found, under the lock, that the index has not moved on" % (g.file, g.line, g.qn))
    k = 0
    for f in d.fns.values():
        if f.body is None or f.file.startswith("src/test"):
            continue
        for x in d.nodes(f):
            if x[0] == "asg" and x[3][0] == "field" and x[3][3] == "DirectoryReader::maxIndexVersion":
                k += 1
                r = x[4]
                while r[0] == "cast":
                    r = r[3]
                res.ob("%s:%d the version a reader may change is one it has read" % (f.file, x[1]))
                if x[2] != "=" or r[0] == "bin" or r[0] == "call" and name_of(r[2]) not in ("SegmentInfos::getVersion", "SegmentInfos::readCurrentVersion") or \
                        r[0] == "int" and r[2] != 0:
                    res.bad("%s/maxIndexVersion" % f.qn, "%s:%d %s makes the reader believe in a version of the index it has not read" % (f.file, x[1], f.qn))
    res.floor("assignments of a reader's version", k, 2)


class SelfSim(Light):
    def havocable(self, p):
        return False                # whether a reader is read-only is fixed when it is made

    def inline(self, fn, node, st, fr):
        return False


def same_reader(res, d):
    """asked for a read-only reader, a writable one never answers itself"""
    k = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.file.startswith("src/test") or not f.cls or not d.isa(f.cls, "IndexReader"):
            continue
        pv = [p for p in f.params if p[1] == "bool" and p[0].split("@")[0].lower().endswith("readonly")]
        fld = [q for c in [f.cls] + list(d.supers(f.cls)) for q, t, l, st in d.fields(c) if t == "bool" and q.split("::")[-1] == "readOnly"]
        if not pv or not fld or f.kind in ("ctor", "dtor"):
            continue
        env = {("v", p[0], 0): TRUE for p in pv}
        env.update({("f", ("this",), q): FALSE for q in fld})
        o = SelfSim().run(f, cls=f.cls, env=env)
        k += 1
        res.ob("%s does not answer a request for a read-only reader with a writable one" % f.key)
        for v, x in o.R:
            if v == ("p", ("this",)):
                res.bad("%s/self" % f.key, "%s:%d %s returns the writable reader itself although a read-only one was asked for" % (f.file, f.line, f.qn))
    res.floor("requests for read-only readers", k, 3)


def run17(res, tier):
    d = db()
    n = lock_first(res, d)
    stale_test(res, d)
    same_reader(res, d)
    # nobody reaches do* around the entry points
    entry = {"deleteDocument", "undeleteAll", "setNorm"}
    for f in d.fns.values():
        if "/test/" in f.file or f.file.startswith("src/test"):
            continue
        for c in d.calls(f):
            if c[0] == "call" and tail(c[2]) in DO and d.isa(name_of(c[2]).rpartition("::")[0], "IndexReader"):
                ok = (f.cls and d.isa(f.cls, "IndexReader") and (f.name in entry or f.name in DO)) or f.cls == "IndexWriter"
                if not ok:  # a helper is fine when all its callers are entry points that hold the lock
                    ok = helper_ok(f, entry, set())
                res.ob("%s:%d %s is reached only through the locking entry points" % (f.file, c[1], tail(c[2])))
                if not ok:
                    res.bad("%s/direct %s" % (f.key, tail(c[2])), "%s:%d %s calls %s without going through an entry point that takes the write lock"
                            % (f.file, c[1], f.qn, name_of(c[2])))
    # read-only variants refuse
    k = 0
    for c in d.subs("IndexReader"):
        if not src(c):
            continue
        envs = []
        if c.startswith("ReadOnly"):
            envs.append(({}, "a read-only reader"))
        if c in ("DirectoryReader",):
            envs.append(({("f", ("this",), "DirectoryReader::readOnly"): TRUE}, "a reader opened read-only"))
            envs.append(({("f", ("this",), "DirectoryReader::stale"): TRUE, ("f", ("this",), "DirectoryReader::segmentInfos"): ("nn", 0, 0)}, "a reader that is out of date"))
        for env, what in envs:
            f = d.method(c, "acquireWriteLock()")
            k += 1
            res.ob("%s of %s never grants the write lock to %s" % ("acquireWriteLock", c, what))
            if f is None or not never_returns(f, c, env):
                res.bad("%s::acquireWriteLock/%s" % (c, what), "%s acquireWriteLock of %s can return normally for %s" % (f.where() if f else "", c, what))
    # the factories
    plain = {"SegmentReader", "DirectoryReader"}

    class F(Light):
        def __init__(self):
            super().__init__(); self.made = []

        def on_new(self, e, vs, st, fr, xs):
            if e[2] in plain:
                self.made.append((fr.fn, e))

        def inline(self, fn, node, st, fr):
            return False
    for f in d.fns.values():
        if f.body is None or f.file.startswith("src/test"):
            continue
        if not any(c[0] == "new" and c[2] in plain for c in d.calls(f)):
            continue
        env = {}
        pv = [p for p in f.params if p[1] == "bool" and p[0].split("@")[0].lower().endswith("readonly")]
        for p in pv:
            env[("v", p[0], 0)] = TRUE
        if not pv:
            for x in d.nodes(f):
                if x[0] == "field" and x[3].lower().endswith("readonly") and x[4] == "bool":
                    env[("f", ("this",), x[3])] = TRUE
        s = F()
        s.run(f, cls=f.cls, env=env)
        k += 1
        res.ob("%s makes a read-only reader when asked for one" % f.key)
        for g, e in s.made:
            res.bad("%s/new %s" % (f.key, e[2]), "%s:%d %s creates a writable %s although %s" % (
                g.file, e[1], g.qn, e[2], "read-only was asked for" if env else "nothing says whether it may be written to"))
    # the wish travels unchanged from call to call
    for f in d.fns.values():
        if f.body is None or f.file.startswith("src/test") or not f.cls or not (d.isa(f.cls, "IndexReader") or f.cls.startswith("FindSegments")):
            continue
        own = [p for p in f.params if p[1] == "bool" and p[0].split("@")[0].lower().endswith("readonly")]
        if not own:
            continue
        for c in d.calls(f):
            ts = d.targets(c)
            args = c[4] if c[0] in ("call", "ctor") else c[3]
            for t in ts[:1]:
                for p, a in zip(t.params, args):
                    if p[1] == "bool" and p[0].split("@")[0].lower().endswith("readonly") and is_node(a):
                        k += 1
                        res.ob("%s passes its read-only wish on to %s" % (f.qn, t.qn))
                        env = {("v", q[0], 0): TRUE for q in own}
                        vals = A(a).values(f, env, c)
                        if FALSE in vals:
                            res.bad("%s/%s drops read-only" % (f.key, t.qn), "%s:%d %s asks %s for a writable reader although it was itself asked for a read-only one"
                                    % (f.file, c[1], f.qn, t.qn))
    res.floor("mutating entry points", n, 5)
    res.floor("read-only refusals, factories and wishes", k, 8)


class A(Light):
    """values an argument expression can take at a call site"""

    def __init__(self, arg):
        super().__init__(); self.arg = arg; self.vals = set()

    def ev(self, e, st, fr, xs):
        r = super().ev(e, st, fr, xs)
        if e is self.arg:
            self.vals |= {v for v, x in r}
        return r

    def inline(self, fn, node, st, fr):
        return False

    def values(self, f, env, call):
        self.run(f, cls=f.cls, env=env)
        return self.vals


def helper_ok(f, entry, seen):
    d = db()
    if f.key in seen:
        return True
    seen.add(f.key)
    if f.acc == "public":
        return False
    cs = [d.fns[k] for k in d.callers(f.key)]
    if not cs:
        return False
    return all((g.cls and d.isa(g.cls, "IndexReader") and (g.name in entry or g.name in DO)) or helper_ok(g, entry, seen) for g in cs)


# ---- C12 -------------------------------------------------------------------------------------------------------------
MUT = ("createOutput", "deleteFile", "renameFile", "touchFile", "sync")
WL = {"IndexWriter::writeLock", "DirectoryReader::writeLock"}


def mutators():
    """functions that may change files of a directory, apart from the lock files"""
    d = db()
    if "mutators" in d._memo:
        return d._memo["mutators"]
    skip = lambda f: f.cls and (d.isa(f.cls, "Lock") or d.isa(f.cls, "LockFactory"))

    def base(f):
        if skip(f):
            return False
        for c in d.calls(f):
            if c[0] == "call" and tail(c[2]) in MUT and d.isa(name_of(c[2]).rpartition("::")[0], "Directory"):
                return True
        return False
    s = {f.key for f in d.fns.values() if base(f)}
    rev = d.callgraph()[1]
    st = list(s)
    while st:
        k = st.pop()
        for c in rev.get(k, ()):
            if c not in s and c in d.fns and not skip(d.fns[c]):
                s.add(c); st.append(c)
    d._memo["mutators"] = s
    return s


class LockSim(Sim):
    """auto: (held?, released?) of the write lock"""
    cap = 300

    def __init__(self, cls):
        super().__init__()
        self.cls0 = cls; self.mut = mutators(); self.bad = {}; self.events = set()

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException", "P<Lock>")
        return path[0] == "f" and path[2] in WL | {"IndexWriter::closed", "IndexReader::_hasChanges"}

    stable_fields = frozenset(("IndexWriter::closed", "IndexReader::_hasChanges"))

    def havocable(self, p):
        return p[2] not in self.stable_fields and p[2] not in WL

    def call_relevant(self, n):
        return True

    def inline(self, fn, node, st, fr):
        return fn.cls is not None and any(x[0] == "call" and name_of(x[2]) in ("Lock::obtain", "Lock::release") for x in self.db.calls(fn)) \
            and not self.db.isa(fn.cls, "Lock")

    def on_call(self, e, key, rp, vs, st, fr, xs):
        q = name_of(key)
        if self.db.isa(q.rpartition("::")[0], "Lock"):
            t = q.split("::")[-1]
            if t == "obtain":
                self.events.add((fr.fn.qn, "obtain"))
                xs.append((("LockObtainFailed", "IO"), st))
                return [(TRUE, st.a(("held", rp))), (FALSE, st)]
            if t == "release":
                self.events.add((fr.fn.qn, "release"))
                xs.append((("IO",), st.a(("gone", None))))
                return [(VOIDV, st.a(("gone", None)))]
        return None

    def pre_call(self, node, key, rp, vs, st, fr):
        ts = self.db.targets(node)
        if st.auto[0] != "held" and any(t.key in self.mut for t in ts):
            self.touch(node[1], name_of(key), st, fr)
        return st

    def on_new(self, e, vs, st, fr, xs):
        if st.auto[0] != "held" and any(t.key in self.mut for t in self.db.ctors_run(e)):
            self.touch(e[1], "new " + e[2], st, fr)

    def touch(self, line, what, st, fr):
        self.bad.setdefault((fr.fn.file, line, fr.fn.qn, what, st.auto[0]), 1)


VOIDV = ("void",)


def run12(res, tier):
    d = db()
    this = ("this",)
    T = lambda q: d.byqn.get(q, [None])[0]
    f = [g for g in d.byqn.get("IndexWriter::initialize", ()) if not g.params]
    names = {}
    if not f:
        res.errors.append("IndexWriter::initialize not found")
    for g in f:
        s = LockSim("IndexWriter")
        o = s.run(g, auto=("free", None), cls="IndexWriter")
        res.ob("opening a writer: no file is changed before the write lock is obtained (%d states)" % s.steps)
        for fl, ln, qn, w, stt in sorted(s.bad):
            res.bad("%s/%s" % (g.qn, w), "%s:%d %s: %s may change files while the write lock is not held (%s)" % (fl, ln, qn, w, stt))
        res.ob("opening a writer: the writer that results holds the lock")
        for v, x in o.R:
            if x.auto[0] != "held" or not stored(x, "IndexWriter::writeLock"):
                res.bad(g.qn + "/not held", "%s:%d %s ends normally without holding the write lock" % (g.file, g.line, g.qn))
        res.ob("opening a writer: a failure gives the lock back")
        for e, x in o.X:
            if x.auto[0] == "held":
                res.bad(g.qn + "/leak", "%s:%d %s ends with an exception but keeps the write lock" % (g.file, g.line, g.qn))
        if (g.qn, "obtain") not in s.events and not any(a == "obtain" for q, a in s.events):
            res.bad(g.qn + "/never obtained", "%s:%d %s never obtains the write lock" % (g.file, g.line, g.qn))
    for g in d.byqn.get("IndexWriter::closeInternal", ()):
        s = CloseSim("IndexWriter")
        held = ("p", ("f", this, "IndexWriter::writeLock"))
        o = s.run(g, auto=("held", None), cls="IndexWriter", env={("f", this, "IndexWriter::closed"): FALSE, ("f", this, "IndexWriter::writeLock"): ("nn", 0, 0)})
        res.ob("closing a writer: nothing is written after the lock is given back")
        for fl, ln, qn, w, stt in sorted(s.bad):
            res.bad("%s/%s" % (g.qn, w), "%s:%d %s: %s may change files after the write lock was released" % (fl, ln, qn, w))
        res.ob("closing a writer: the writer is closed only after it gave the lock back")
        for p in sorted(s.early):
            res.bad(g.qn + "/closed early", "%s:%d %s marks the writer closed while it still holds the write lock" % p)
        if not s.seen:
            res.errors.append("closeInternal: no assignment to closed seen")
        for v, x in o.R:
            if x.env.get(("f", this, "IndexWriter::closed")) == TRUE and x.auto[0] == "held":
                res.bad(g.qn + "/leak", "%s:%d %s closes the writer and keeps the write lock" % (g.file, g.line, g.qn))
    for g in d.byqn.get("DirectoryReader::acquireWriteLock", ()):
        s = LockSim("DirectoryReader")
        env = {("f", this, "DirectoryReader::segmentInfos"): ("nn", 0, 0), ("f", this, "DirectoryReader::writeLock"): NUL}
        s.track_seg = True
        o = s.run(g, auto=("free", None), cls="DirectoryReader", env=env)
        res.ob("a reader that is to change the index holds the write lock")
        for v, x in o.R:
            if x.auto[0] != "held" or not stored(x, "DirectoryReader::writeLock"):
                res.bad(g.qn + "/not held", "%s:%d %s returns normally without holding the write lock" % (g.file, g.line, g.qn))
    for g in d.byqn.get("DirectoryReader::doCommit", ()):
        s = LockSim("DirectoryReader")
        o = s.run(g, auto=("held", None), cls="DirectoryReader", env={("f", this, "IndexReader::_hasChanges"): TRUE, ("f", this, "DirectoryReader::writeLock"): ("nn", 0, 0)})
        res.ob("a reader's commit writes nothing after it gave the write lock back, and does give it back")
        for fl, ln, qn, w, stt in sorted(s.bad):
            res.bad("%s/%s" % (g.qn, w), "%s:%d %s: %s may change files after the write lock was released" % (fl, ln, qn, w))
        for v, x in o.R:
            if x.auto[0] == "held":
                res.bad(g.qn + "/leak", "%s:%d %s commits and keeps the write lock" % (g.file, g.line, g.qn))
    hand_over(res, d)
    lock_first(res, d)
    # the same lock for everybody
    n = 0
    for g in d.fns.values():
        if g.file.startswith("src/test"):
            continue
        for c in d.calls(g):
            if c[0] == "call" and tail(c[2]) == "makeLock" and d.isa(name_of(c[2]).rpartition("::")[0], "Directory") and g.cls in ("IndexWriter", "DirectoryReader", "IndexReader"):
                n += 1
                a = c[4][0]
                names.setdefault(lockname(a), []).append("%s:%d" % (g.file, c[1]))
    res.ob("writers and modifying readers use one lock (%s)" % sorted(map(str, names)))
    if len(names) != 1:
        res.bad("lock names", "writers and modifying readers make different locks: %s" % names)
    res.floor("lock makers", n, 2)


class HandSim(LockSim):
    """a lock that is held is given back or handed to another object before it is forgotten, never both"""
    def __init__(self, cls):
        super().__init__(cls); self.lost = set(); self.twice = set(); self.n = 0

    def inline(self, fn, node, st, fr):
        return False

    def may_throw(self, node, targets, st, fr):
        return False

    def pre_call(self, node, key, rp, vs, st, fr):
        return st

    def on_new(self, e, vs, st, fr, xs):
        pass

    def on_call(self, e, key, rp, vs, st, fr, xs):
        if tail(key) == "release" and self.db.isa(name_of(key).rpartition("::")[0], "Lock"):
            self.n += 1
            if st.auto[0] == "moved":
                self.twice.add((fr.fn.file, e[1], fr.fn.qn))
        return super().on_call(e, key, rp, vs, st, fr, xs)

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] in WL:
            self.n += 1
            if path[1] == ("this",):
                if val == NUL and st.auto[0] == "held":
                    self.lost.add((fr.fn.file, node[1], fr.fn.qn))
            elif val != NUL:
                if st.auto[0] == "gone":
                    self.twice.add((fr.fn.file, node[1], fr.fn.qn))
                return st.a(("moved", None))
        return st


def hand_over(res, d):
    n = 0
    for cls in ("IndexWriter", "DirectoryReader"):
        wl = cls + "::writeLock"
        for f in sorted(d.fns.values(), key=lambda f: f.key):
            if f.body is None or f.cls != cls or f.kind in ("ctor", "dtor") or not f.file.startswith("src/core"):
                continue
            if not any(x[0] == "asg" and x[3][0] == "field" and x[3][3] == wl or x[0] == "call" and tail(x[2]) in ("reset", "swap") and x[3] is not None and x[3][0] == "field" and x[3][3] == wl for x in d.nodes(f)):
                continue
            for env in ({("f", ("this",), wl): ("nn", 0, 0)}, {("f", ("this",), wl): NUL}):
                s = HandSim(cls)
                s.run(f, auto=("held", None) if env[("f", ("this",), wl)] != NUL else ("free", None), cls=cls, env=env)
                n += s.n
                for p in sorted(s.lost):
                    res.bad("%s/forgotten" % f.qn, "%s:%d %s forgets the write lock without giving it back" % p)
                for p in sorted(s.twice):
                    res.bad("%s/handed on" % f.qn, "%s:%d %s gives back a write lock that another object goes on using" % p)
            res.ob("%s gives the write lock back, or hands it on, before it forgets it" % f.qn)
    res.floor("lock hand-overs", n, 6)


def lockname(a):
    while a and a[0] in ("cast", "ctor"):
        a = a[3] if a[0] == "cast" else (a[4][0] if a[4] else None)
    if a is None:
        return None
    return a[2] if a[0] in ("gvar", "str") else (name_of(a[2]) if a[0] == "call" else a[0])


def stored(x, fld):
    v = x.env.get(("f", ("this",), fld))
    return v is not None and v != NUL


class CloseSim(LockSim):
    def __init__(self, cls):
        super().__init__(cls); self.early = set(); self.seen = False

    def on_assign(self, path, val, st, node, fr):
        if path == ("f", ("this",), "IndexWriter::closed") and val == TRUE:
            self.seen = True
            if st.auto[0] == "held":
                self.early.add((fr.fn.file, node[1], fr.fn.qn))
        return st


# ---- C28 -------------------------------------------------------------------------------------------------------------
O_EXCL = 0o200
NOLOCK = {"NoLock"}          # the documented "no locking" implementation


class ObtainSim(Sim):
    """auto: (excl, reserved, absent, flock, streams open on the lock file)"""
    cap = 400

    def __init__(self, cls):
        super().__init__()
        self.c = cls; self.bad = {}; self.ev_seen = set(); self.sets = {}; self.flocks = False

    def track(self, path, typ):
        return (path[0] == "v" or path[0] == "f") and "fstream<" not in typ

    def may_throw(self, node, targets, st, fr):
        return False

    def call_relevant(self, n):
        return True

    slicing = False

    def inline(self, fn, node, st, fr):
        return fn.cls is not None and (self.db.isa(self.c, fn.cls) or fn.cls == self.c)

    def note(self, node, fr, what):
        self.bad.setdefault((fr.fn.file, node[1], fr.fn.qn, what), 1)

    def others(self, st):
        return [l for l in st.locks if l != ("this",)]

    def on_unlock(self, lock, st, node, fr):
        if not self.others(st):
            e, r, a, f, o = st.auto
            return st.a((e, r, False, f, o))
        return st

    def opened(self, st, node, fr, path):
        e, r, a, f, o = st.auto
        if f:
            self.note(node, fr, "opens the lock file again while it is locked; closing that handle drops the lock")
        return st.a((e, r, a, f, o | {path}))

    def decl(self, s, st, fr):
        o = super().decl(s, st, fr)
        if "fstream<" in s[3] and is_node(s[4]) and s[4][0] == "ctor" and s[4][4]:
            o.N = [self.opened(x, s, fr, ("v", s[2], fr.id)) for x in o.N]
            o.X = o.X + [(("std",), x) for x in o.N]
        return o

    def _leave(self, o, depth, names, s, fr):
        super()._leave(o, depth, names, s, fr)
        ns = frozenset(("v", n, fr.id) for n in names)

        def fix(x):
            if x.auto is not None and x.auto[4] & ns:
                return x.a(x.auto[:4] + (x.auto[4] - ns,))
            return x
        o.N = [fix(x) for x in o.N]; o.B = [fix(x) for x in o.B]; o.C = [fix(x) for x in o.C]
        o.R = [(v, fix(x)) for v, x in o.R]; o.X = [(v, fix(x)) for v, x in o.X]

    def on_new(self, e, vs, st, fr, xs):
        if "file_lock" in e[2]:
            xs.append((("std",), st))
        return None

    def on_call(self, e, key, rp, vs, st, fr, xs):
        q = name_of(key); t = q.split("::")[-1]
        ex, r, a, f, o = st.auto
        if t in ("fopen", "_wfopen", "_wfsopen", "open", "_wopen", "_open", "CreateFileW", "CreateFileA") and e[3] is None:
            excl = any(v[0] == "s" and "x" in v[1] for v in vs[1:]) or (t == "open" and len(vs) > 1 and vs[1][0] == "k" and vs[1][1] & O_EXCL) \
                or (t.startswith("CreateFile") and len(vs) > 4 and vs[4] == ("k", 1))
            self.ev_seen.add("create")
            if not excl:
                return [(("nn", id(e), fr.id), st), (NUL, st)]
            bad = ("k", -1) if t == "open" else NUL
            good = ("k", 3) if t == "open" else ("nn", id(e), fr.id)
            return [(good, st.a((True, r, a, f, o))), (bad, st)]
        if "fstream::" in q and t == "open":
            xs.append((("std",), st))
            return [(("void",), self.opened(st, e, fr, rp))]
        if "fstream::" in q and t == "close":
            return [(("void",), st.a((ex, r, a, f, o - {rp})))]
        if "file_lock::" in q and t in ("lock", "try_lock", "timed_lock"):
            self.ev_seen.add("flock")
            if o:
                self.note(e, fr, "locks the file while another handle on it is open; closing that handle drops the lock")
            xs.append((("std",), st))
            ok = st.a((ex, r, a, True, o))
            return [(TRUE, ok)] if t == "lock" else [(TRUE, ok), (FALSE, st)]
        if "file_lock::" in q and t == "unlock":
            xs.append((("std",), st))
            return [(("void",), st.a((ex, r, a, False, o)))]
        if q == "HashSet::contains" and vs and str_arg(vs[0]):
            return [(TRUE, st), (FALSE, st.a((ex, r, bool(self.others(st)), f, o)))]
        if q == "FileUtils::removeFile" and self.flocks:
            self.note(e, fr, "deletes a file that is locked by file locks; another process may hold a lock on the deleted file while a third locks a new one")
        if q == "HashSet::add" and vs and str_arg(vs[0]):
            self.ev_seen.add("reserve")
            self.sets.setdefault(rp, (fr.fn, e[1]))
            if not self.others(st):
                self.note(e, fr, "reserves the lock without holding the mutex of the reservations")
            new = st.a((ex, "new", False, f, o))
            return [(TRUE, new)] if a else [(TRUE, new), (FALSE, st)]
        if q == "HashSet::remove" and vs and str_arg(vs[0]):
            if not self.others(st):
                self.note(e, fr, "removes a reservation without holding the mutex of the reservations")
            if r == "other":
                self.note(e, fr, "gives back a reservation that another holder made")
            return [(TRUE, st.a((ex, None, False, f, o)))]
        if t == "obtain" and e[3] is not None and e[3][0] != "this" and self.db.isa(q.rpartition("::")[0], "Lock"):
            return [(TRUE, st.a((True, r, a, f, o))), (FALSE, st)]
        return None


def str_arg(v):
    return v[0] == "p" and v[1][0] in ("f", "v")


def shared28(d, res, c, rp, g, ln):
    """the set that holds the reservations is one object for all locks that can compete"""
    where = "%s:%d %s" % (g.file, ln, g.qn)
    res.ob("%s: the reservations are shared by all competing locks" % c)
    if rp and rp[0] == "g":
        return
    if not (rp and rp[0] == "f" and rp[1] == ("this",)):
        res.bad(g.qn + "/private reservations", "%s reserves the lock in a set that no other lock object looks at" % where)
        return
    fld = rp[2]
    n = 0
    for ct in d.fns.values():
        if ct.kind != "ctor" or ct.cls != fld.rpartition("::")[0] or ct.body is None:
            continue
        pi = ctor_param(d, ct, fld)
        if pi is None:
            res.bad(ct.qn + "/private reservations", "%s:%d %s does not take the set of reservations from its maker" % (ct.file, ct.line, ct.qn))
            continue
        for f in d.fns.values():
            if f.file.startswith("src/test"):
                continue
            for x in d.calls(f):
                if x[0] == "new" and x[2] == ct.cls and len(x[3]) > pi:
                    a = x[3][pi]
                    while a[0] in ("cast", "ctor") and (a[3] if a[0] == "cast" else a[4]):
                        a = a[3] if a[0] == "cast" else a[4][0]
                    n += 1
                    if not (a[0] == "gvar" or a[0] == "field" and a[2][0] == "this" or a[0] == "var" and "@" in a[2] and own_alias(d, f, a[2])):
                        res.bad(f.qn + "/private reservations", "%s:%d %s gives the lock a set of reservations that other locks do not share" % (f.file, x[1], f.qn))
    res.floor("makers of %s" % c, n, 1)


def own_alias(d, f, v):
    return any(n[0] == "decl" and n[2] == v and is_node(n[4]) and any(x[0] == "field" and x[2][0] == "this" for x in walk(n[4])) for n in d.nodes(f))


def ctor_param(d, ct, fld):
    for n in d.nodes(ct):
        if n[0] == "asg" and n[3][0] == "field" and n[3][3] == fld and n[4][0] == "var":
            for i, p in enumerate(ct.params):
                if p[0] == n[4][2]:
                    return i
    for i in ct.inits:
        if i[1] == fld and is_node(i[2]):
            v = [x for x in walk(i[2]) if x[0] == "var"]
            for j, p in enumerate(ct.params):
                if v and p[0] == v[0][2]:
                    return j
    return None


def run28(res, tier):
    d = db()
    n = 0
    for c in d.subs("Lock"):
        if not src(c) or c == "Lock" or c in NOLOCK:
            continue
        env = {}
        for k in [c] + d.supers(c):
            for q, t, _, st in d.fields(k):
                if "file_lock" in t:
                    env[("f", ("this",), q)] = NUL
        usesf = bool(env)
        for f in d.byqn.get(c + "::obtain", ()):
            if f.body is None or f.params:
                continue
            n += 1
            s = ObtainSim(c); s.flocks = usesf
            o = s.run(f, auto=(False, None, False, False, frozenset()), cls=c, env=env)
            res.ob("%s reports success only after an operation that at most one contender can complete (%s)" % (f.qn, ", ".join(sorted(s.ev_seen))))
            for fl, ln, qn, w in sorted(s.bad):
                res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (fl, ln, qn, w))
            for v, x in o.R:
                ex, r, a, fk, op = x.auto
                if v == FALSE:
                    if r == "new":
                        res.bad(f.qn + "/reservation kept", "%s:%d %s fails on a path but leaves the lock reserved" % (f.file, f.line, f.qn))
                elif not (ex or (r == "new" and (fk or not usesf))):
                    res.bad(f.qn + "/not exclusive", "%s:%d %s can report success although nothing excludes a second holder (%s)" % (
                        f.file, f.line, f.qn, "no reservation within the process" if fk else "no exclusive create, file lock or reservation succeeded"))
            for e, x in o.X:
                if x.auto[1] == "new":
                    res.bad(f.qn + "/reservation kept", "%s:%d %s fails with an exception but leaves the lock reserved" % (f.file, f.line, f.qn))
            for rp, (g, ln) in s.sets.items():
                shared28(d, res, c, rp, g, ln)
            if usesf:
                s = ObtainSim(c)
                o = s.run(f, auto=(False, "new", False, True, frozenset()), cls=c, env={k: ("nn", 0, 0) for k in env})
                res.ob("%s refuses a lock that this object already holds" % f.qn)
                for v, x in o.R:
                    if v != FALSE:
                        res.bad(f.qn + "/held twice", "%s:%d %s can report success a second time for a lock that is already held through it" % (f.file, f.line, f.qn))
        for f in d.byqn.get(c + "::isLocked", ()):
            if f.body is None:
                continue
            s = ObtainSim(c); s.flocks = usesf
            o = s.run(f, auto=(False, None, False, False, frozenset()), cls=c, env=env)
            res.ob("%s leaves nothing reserved" % f.qn)
            for v, x in list(o.R) + list(o.X):
                if x.auto[1] == "new" or x.auto[0]:
                    res.bad(f.qn + "/asking reserves", "%s:%d %s only asks, but a path leaves the lock held" % (f.file, f.line, f.qn))
            for fl, ln, qn, w in sorted(s.bad):
                res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (fl, ln, qn, w))
        for f in d.byqn.get(c + "::release", ()):
            if f.body is None or not (usesf or any("HashSet" in t for q, t, _, _ in d.fields(c))):
                continue
            s = ObtainSim(c); s.flocks = usesf
            o = s.run(f, auto=(False, "new", False, usesf, frozenset()), cls=c, env={k: ("nn", 0, 0) for k in env})
            res.ob("%s gives the reservation back" % f.qn)
            for v, x in list(o.R) + list(o.X):
                if x.auto[1] == "new":
                    res.bad(f.qn + "/reservation kept", "%s:%d %s returns but leaves the lock reserved for ever" % (f.file, f.line, f.qn))
            bad = dict(s.bad)
            if usesf:
                s = ObtainSim(c); s.flocks = True
                s.run(f, auto=(False, "other", False, False, frozenset()), cls=c, env=env)
                res.ob("%s on an object that does not hold the lock takes nothing from the holder" % f.qn)
                bad.update(s.bad)
            for fl, ln, qn, w in sorted(bad):
                res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (fl, ln, qn, w))
    for c in d.subs("LockFactory"):
        for f in d.byqn.get(c + "::clearLock", ()):
            if f.body is None or not src(c):
                continue
            s = ObtainSim(c)
            s.run(f, auto=(False, None, False, False, frozenset()), cls=c)
            res.ob("%s removes reservations only under their mutex" % f.qn)
            for fl, ln, qn, w in sorted(s.bad):
                res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s" % (fl, ln, qn, w))
    for who, text in shared_guards(d):
        if d.isa(who, "Lock") or d.isa(who, "LockFactory"):
            res.bad("%s/shared mutex" % who, text)
    res.ob("lock objects that share a reservation set share its mutex")
    res.floor("lock implementations", n, 3)


def shared_guards(d):
    """containers used as mutexes by one class although the same set is handed to it by a class that locks its own copy:
    copies share a mutex only if it existed before the copy was made"""
    if "sharedg" in d._memo:
        return d._memo["sharedg"]
    out = []
    locked = {}
    for f in d.fns.values():
        if f.file.startswith("src/test"):
            continue
        for n in d.nodes(f):
            if n[0] == "decl" and n[3] == "SyncLock" and is_node(n[4]) and n[4][0] == "ctor" and n[4][4]:
                a = n[4][4][0]
                while a[0] in ("un", "cast", "star"):
                    a = a[3] if a[0] != "star" else a[2]
                if a[0] == "field" and a[2][0] == "this" and a[4].split("<")[0] in ("HashSet", "HashMap", "Collection", "Map", "Set", "WeakHashMap", "Array"):
                    locked.setdefault(a[3], []).append((f, n[1]))
    for fld in locked:
        cls = fld.rpartition("::")[0]
        for ct in d.fns.values():
            if ct.kind != "ctor" or ct.cls != cls or ct.body is None:
                continue
            pi = None
            for n in d.nodes(ct):
                if n[0] == "asg" and n[3][0] == "field" and n[3][3] == fld and n[4][0] == "var":
                    pi = [i for i, p in enumerate(ct.params) if p[0] == n[4][2]]
            for i in ct.inits:
                if i[1] == fld and is_node(i[2]):
                    v = [x for x in walk(i[2]) if x[0] == "var"]
                    pi = [j for j, p in enumerate(ct.params) if v and p[0] == v[0][2]] or pi
            if not pi:
                continue
            for g in d.fns.values():
                if g.file.startswith("src/test"):
                    continue
                for c in d.calls(g):
                    if c[0] == "new" and c[2] == cls and len(c[3]) > pi[0]:
                        a = c[3][pi[0]]
                        while a[0] in ("cast", "ctor") and (a[3] if a[0] == "cast" else a[4]):
                            a = a[3] if a[0] == "cast" else a[4][0]
                        if a[0] == "field" and (a[3] in locked):
                            if not synced_at_birth(d, a[3]):
                                out.append((cls, "%s:%d %s shares %s with %s, and both lock their own copy of the set; the copies have different mutexes because none exists when the copy is made"
                                            % (g.file, c[1], g.qn, a[3], cls)))
    d._memo["sharedg"] = out
    return out


def synced_at_birth(d, fld):
    """every function that assigns a new container to fld makes its mutex at once"""
    ok = False
    for f in d.fns.values():
        if f.file.startswith("src/test"):
            continue
        asgs = [n for n in d.nodes(f) if n[0] == "asg" and n[3][0] == "field" and n[3][3] == fld and not (n[4][0] == "field" and n[4][3] == fld)]
        if asgs:
            g = [n for n in d.nodes(f) if n[0] == "call" and name_of(n[2]) in ("LuceneSync::getSync", "LuceneSync::lock", "LuceneSync::getSignal")
                 and n[3] is not None and n[3][0] == "field" and n[3][3] == fld]
            if not g:
                return False
            ok = True
    return ok


SIM = ["lpp/sim.py (abstract interpreter)", "lpp/guard.py"]
PROPS = [
    P("C07", "Closed writers, readers and directories refuse every operation",
      "After an index writer, an index reader or a file-system or memory directory has been closed, every operation on it that reads, changes, commits, configures or hands out index data raises an already-closed error, on every path and before it touches or changes anything. Cheap status accessors (document counts, deletion tests, generation and name accessors) and closing again are the only exceptions.",
      ["histories", "inputs"], "every public operation of the writer, of every reader class and of the directory classes; every path through it and its helpers",
      "Use after close corrupts state or crashes only for the particular operation and path that lacks the check; tests try a few.",
      ["src/core/index/IndexWriter.cpp", "src/core/index/IndexReader.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentReader.cpp",
       "src/core/index/FilterIndexReader.cpp", "src/core/index/MultiReader.cpp", "src/core/index/ParallelReader.cpp", "src/core/store/FSDirectory.cpp", "src/core/store/RAMDirectory.cpp"],
      [("ensureOpen", "IndexWriter.cpp, IndexReader.cpp, Directory.cpp")],
      "guard-before-use typestate on all paths of each entry point (own helpers inlined), plus abstract execution of the guard under a set closed flag",
      "Decides that the open check precedes every use of the object's parts and every normal return, that the check cannot return once the flag is set, and that closing a directory sets it. MemoryIndex readers, compound-file readers and the file-switch directory follow other protocols and are not covered; concurrent close during an operation is not covered.",
      run07, trusted=SIM),
    P("C12", "One index, one writer: the write lock brackets every change",
      "Opening an index writer changes no file before the write lock has been obtained, and a writer that failed to open does not keep the lock. A closed writer or a committed modifying reader has given the lock back and changes no file after that; readers take the same lock before they are allowed to change anything.",
      ["histories", "fault_sequences"], "every path of writer start-up, writer close, reader lock acquisition and reader commit, with failures at every step",
      "Two writers interfere only when a failure or an interleaving hits the window; no test enumerates failures during start-up and close.",
      ["src/core/index/IndexWriter.cpp", "src/core/index/DirectoryReader.cpp"],
      [("IndexWriter::initialize / closeInternal", "IndexWriter.cpp"), ("acquireWriteLock / doCommit", "DirectoryReader.cpp")],
      "lock typestate over all paths with exceptional edges; calls that may reach a directory mutation (call-graph closure) are allowed only in the held state",
      "Decides ordering of obtain, file changes and release. Creating a writer with create=true first clears a left-over lock, as documented; that step is exempt. Whether the lock itself excludes is C28.",
      run12, trusted=SIM),
    P("C17", "Read-only and stale readers never change the index",
      "A reader opened or cloned as read-only refuses deletions, undeletions and norm changes with an error, and so does a reader whose index has moved on; asking for a read-only reader always yields one. A writable reader takes the write lock before it marks or changes anything.",
      ["histories", "inputs"], "every mutating reader entry point and its overrides, every path; every place that creates or re-creates a reader",
      "A wrongly writable reader works in every test that does not try to write through it.",
      ["src/core/index/IndexReader.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentReader.cpp", "src/core/index/ReadOnlySegmentReader.cpp", "src/core/index/ReadOnlyDirectoryReader.cpp"],
      [("acquireWriteLock", "IndexReader.cpp, DirectoryReader.cpp, ReadOnly*.cpp"), ("SegmentReader::get / reopenSegment, DirectoryReader::doReopen, FindSegmentsOpen::doBody", "")],
      "guard-before-action typestate; abstract execution of the factories and the lock methods under the read-only flag",
      "Decides that the lock is asked for first, that read-only and stale readers cannot get it, that factories honour the flag and that it is passed on unchanged. Deletions the writer itself applies through pooled readers are its own business (C12).",
      run17, trusted=SIM),
    P("C28", "A lock has at most one holder",
      "Every lock implementation except the explicit no-op one reports success only when no other holder, in this or another thread or process it is meant for, can also be told it succeeded: through an exclusive file creation, a file lock together with an in-process reservation, or a reservation made under one mutex shared by all contenders. A failed attempt, or asking whether the lock is held, leaves nothing reserved; a release gives the reservation back.",
      ["schedules", "histories"], "every lock implementation, every path of obtaining and releasing, failures of each file operation included",
      "Two holders appear only when two contenders race or run in different processes; the tests obtain locks one at a time.",
      ["src/core/store/SimpleFSLockFactory.cpp", "src/core/store/NativeFSLockFactory.cpp", "src/core/store/SingleInstanceLockFactory.cpp"],
      [("obtain / release", "SimpleFSLockFactory.cpp, NativeFSLockFactory.cpp, SingleInstanceLockFactory.cpp")],
      "typestate over all paths of obtain/release (exclusive create, reservation under a mutex, advisory lock not undone by closing another handle), plus mutex-sharing analysis of copied sets",
      "The exclusiveness of O_EXCL creation, of fcntl locks between processes and of the mutex are assumed. Clearing a left-over lock by name (documented as forceful) is not covered.",
      run28, trusted=SIM),
]
