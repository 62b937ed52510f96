"""Locks held at every program point: scoped locks of the function plus, between functions, the locks every caller holds.

A lock is named by the class family of the object that carries it ("IndexWriter") or, for a collection or a dedicated lock
object, by the field that holds it ("IndexWriter::synced").  `self` in an entry set means: the lock of the receiver."""
import collections
from .db import db, kids, walk, is_node, strip_type, name_of

PLAIN = ("Synchronize", "LuceneSync", "LuceneObject", "Object", "")
COLL = ("HashSet<", "HashMap<", "Map<", "Set<", "Collection<", "WeakHashMap<", "MapStringString", "Array<")


def family(c):
    """topmost project class of a hierarchy (its objects share one lock per object)"""
    d = db()
    if c not in d.classes:
        return c
    while True:
        b = [x for x in d.classes[c].bases if x in d.classes and x not in PLAIN]
        if not b:
            return c
        c = b[0]


def callee_name(e):
    return name_of(e[2])


class Held:
    """one held lock: id (class family or field), path text of the locked object"""
    __slots__ = ("id", "path", "line")

    def __init__(self, id, path, line):
        self.id = id; self.path = path; self.line = line

    def __repr__(self):
        return "%s[%s]" % (self.id, self.path)


def ptext(e, al):
    """canonical text of an object expression; local copies of a path stand for the path"""
    while e is not None and e[0] in ("arrow", "star", "cast", "paren") or (e is not None and e[0] == "un" and e[2] in ("&", "*")):
        e = e[3] if e[0] == "un" else e[2] if e[0] != "cast" else e[-1]
        if not is_node(e):
            return "?"
    if e is None:
        return "this"
    if e[0] == "this":
        return "this"
    if e[0] == "var":
        return al.get(e[2], e[2])
    if e[0] == "gvar":
        return e[2]
    if e[0] == "field":
        return ptext(e[2], al) + "." + e[3]
    if e[0] == "ctor" and e[4] and len(e[4]) == 1:
        return ptext(e[4][0], al)
    if e[0] == "call":
        nm = name_of(e[2]).split("::")[-1]
        if nm in ("lock", "shared_from_this", "get") and is_node(e[3]):
            return ptext(e[3], al)
        if nm in ("dynamic_pointer_cast", "static_pointer_cast") and e[4]:
            return ptext(e[4][0], al)
        return "call:" + name_of(e[2]) + "(" + (ptext(e[3], al) if is_node(e[3]) else "") + ")"
    return "?%s" % e[0]


def etype(e):
    if e is None:
        return ""
    k = e[0]
    if k in ("var", "gvar"):
        return e[3]
    if k == "field":
        return e[4]
    if k in ("arrow", "star"):
        return strip_type(etype(e[2]))
    if k == "un":
        return etype(e[3])
    if k == "call":
        f = db().fns.get(e[2])
        return f.ret if f is not None else ""
    if k == "ctor":
        return e[2]
    return ""


def lock_id(e, fn, al):
    """identity of the lock an expression names"""
    while e[0] == "un" and e[2] == "&" or e[0] == "ctor" and len(e[4]) == 1:
        e = e[3] if e[0] == "un" else e[4][0]
    if e[0] == "this":
        return family(fn.cls) if fn.cls else "?"
    if e[0] == "call" and name_of(e[2]).split("::")[-1] in ("lock", "shared_from_this", "get") and is_node(e[3]):
        return lock_id(e[3], fn, al)
    ty = etype(e)
    t = strip_type(ty)
    if t in db().classes and t not in PLAIN:
        return family(t)
    if e[0] == "field":
        return e[3]
    if e[0] == "gvar":
        return e[2]
    if e[0] == "call":
        return name_of(e[2])
    if e[0] == "var":
        return fn.qn + "/" + e[2].split("@")[0]
    return "?"


def sync_decl(n):
    return n[0] == "decl" and n[3] == "SyncLock" and is_node(n[4]) and n[4][0] == "ctor" and n[4][4]


def aliases(fn):
    """single-assignment local names that stand for a path"""
    al = {}
    bad = set()
    for n in db().nodes(fn):
        if n[0] == "asg" and n[3][0] == "var":
            bad.add(n[3][2])
    for n in db().nodes(fn):
        if n[0] == "decl" and is_node(n[4]) and n[2] not in bad:
            t = ptext(n[4], al)
            if not t.startswith("?") and t != "call:":
                al[n[2]] = t
    return al


class Site:
    __slots__ = ("fn", "node", "held", "loops", "write")

    def __init__(self, fn, node, held, loops, write=False):
        self.fn = fn; self.node = node; self.held = held; self.loops = loops; self.write = write


MUT = set("add addAll remove removeAll put clear set resize insert erase push_back pop_back swap reset removeFirst removeLast addFirst addLast "
          "notifyAll".split()) - {"notifyAll"}


# other things threads exclude each other with, from the call that takes them to the call that gives them back
TAKES = {"DocumentsWriter::getThreadState": "(indexing)", "DocumentsWriter::pauseAllThreads": "(paused)",
         "IndexWriter::acquireRead": "(gate)", "IndexWriter::acquireWrite": "(gate)", "IndexWriter::blockAddIndexes": "(gate)",
         "IndexWriter::upgradeReadToWrite": "(gate)", "IndexWriter::startTransaction": "(gate)"}
GIVES = {"DocumentsWriter::resumeAllThreads": "(paused)", "IndexWriter::releaseRead": "(gate)", "IndexWriter::releaseWrite": "(gate)",
         "IndexWriter::resumeAddIndexes": "(gate)", "IndexWriter::commitTransaction": "(gate)", "IndexWriter::rollbackTransaction": "(gate)"}
STARTS = {"MergeThread::run": "(merges)"}


def tokens(s, held):
    """exclusions a statement takes or gives back"""
    if s[0] == "if":
        s = s[2]
    elif s[0] in ("block", "while", "do", "for", "rfor", "try", "switch", "lambda"):
        return held
    for c in walk(s):
        if c[0] != "call":
            continue
        q = name_of(c[2])
        if q in TAKES:
            held = held + (Held(TAKES[q], "", c[1]),)
        elif q in GIVES:
            held = tuple(h for h in held if h.id != GIVES[q])
    return held


def scan(fn, visit):
    """call visit(node, held, loops) for every node of a body with the scoped locks held there and the enclosing loops"""
    al = aliases(fn)
    start = (Held(STARTS[fn.qn], "", fn.line),) if fn.qn in STARTS else ()

    def rec(n, held, loops):
        if n[0] == "block":
            h = held
            for s in n[2]:
                if not is_node(s):
                    continue
                h = stmt(s, h, loops)
            return
        visit(n, held, loops)
        if n[0] in ("while", "do", "for", "rfor"):
            h = held
            for k in kids(n):
                h = stmt(k, h, loops + (n,))
            return
        for k in kids(n):
            stmt(k, held, loops)

    def stmt(s, held, loops):
        if sync_decl(s):
            a = s[4][4][0]
            visit(s, held, loops)
            for k in kids(s):
                rec(k, held, loops)
            return held + (Held(lock_id(a, fn, al), ptext(a, al), s[1]),)
        rec(s, held, loops)
        return tokens(s, held)
    for i in fn.inits or ():
        if is_node(i):
            rec(i, (), ())
        elif isinstance(i, list):
            for x in i:
                if is_node(x):
                    rec(x, (), ())
    if fn.body:
        rec(fn.body, start, ())
    return al


class Locks:
    def __init__(self, api, assume=()):
        self.d = db()
        self.api = api                                  # functions other code may call with no lock held
        self.assume = set(assume)                       # (caller, callee) pairs judged by hand, left out
        self.callheld = {}
        self.excl = set()                               # called on objects under construction
        self.calls = collections.defaultdict(list)     # callee key -> [(caller fn, held, same object?, locks of receiver held lexically)]
        self.fields = collections.defaultdict(list)    # field -> [Site]
        self.sync = []                                  # (fn, Held new, held)
        self.named = collections.defaultdict(list)      # callee name -> [Site]
        self.al = {}
        self._fresh = {}
        for f in self.d.fns.values():
            if f.body is None or f.file.startswith("src/test") or "/test/" in f.file or "/gtest" in f.file:
                continue
            self.one(f)
        self._entry()

    def one(self, f):
        d = self.d
        wr = set()
        lk = set()

        def base(n):
            while n is not None and n[0] in ("idx", "arrow", "star"):
                n = n[2]
            return n

        def visit(n, held, loops):
            k = n[0]
            if sync_decl(n):
                t = n[4][4][0]
                while t[0] == "un" and is_node(t[3]):
                    t = t[3]
                lk.add(id(t))
            if k == "asg":
                t = base(n[3])
                if t is not None and t[0] == "field":
                    wr.add(id(t))
            elif k == "un" and ("++" in n[2] or "--" in n[2]):
                t = base(n[3])
                if t is not None and t[0] == "field":
                    wr.add(id(t))
            elif k in ("call", "new", "ctor"):
                if k == "call":
                    if is_node(n[3]) and n[3][0] == "field" and name_of(n[2]).split("::")[-1] in ("notifyAll", "wait"):
                        lk.add(id(n[3]))
                    if is_node(n[3]) and name_of(n[2]).split("::")[-1] in MUT:
                        t = n[3]
                        # a pointer's target is another object; a collection's elements belong to the field
                        if t[0] == "field":
                            wr.add(id(t))
                    self.named[name_of(n[2])].append(Site(f, n, held, loops))
                self.callheld[id(n)] = held
                al = self.al[f.key]
                rp = None
                if k == "call":
                    rp = "this" if n[3] is None and False else (ptext(n[3], al) if is_node(n[3]) else None)
                if k == "call" and self.private(f, n, rp):
                    for t in d.targets(n):
                        self.excl.add(t.key)
                    return
                for t in d.targets(n):
                    self.calls[t.key].append((f, held, rp, n))
            elif k == "field":
                if id(n) in lk:
                    return
                self.fields[n[3]].append(Site(f, n, held, loops, id(n) in wr))
            elif sync_decl(n):
                al = self.al[f.key]
                a = n[4][4][0]
                self.sync.append((f, Held(lock_id(a, f, al), ptext(a, al), n[1]), held))
        self.al[f.key] = aliases(f)
        scan(f, visit)

    def private(self, f, n, rp):
        """does the call act on an object no other thread can reach yet (under construction, or made by this function)"""
        if rp is None:
            return False
        if rp == "this" and (f.kind == "ctor" or f.name == "initialize"):
            return True
        return rp in self.fresh(f)

    def fresh(self, f):
        r = self._fresh.get(f.key)
        if r is None:
            r = set()
            for n in self.d.nodes(f):
                if n[0] == "decl" and is_node(n[4]):
                    e = n[4]
                    while e[0] == "ctor" and len(e[4]) == 1 and is_node(e[4][0]):
                        e = e[4][0]
                    if e[0] == "new":
                        r.add(n[2])
            self._fresh[f.key] = r
        return r

    def open_entry(self, f):
        """may code outside the analysed classes call this function with no lock held?"""
        if f.kind == "dtor" or f.name == "run" or f.qn.endswith("operator()"):
            return True
        if f.qn in self.api and not internal(f.cls):
            return True
        return not self.calls.get(f.key) and f.key not in self.excl and not internal(f.cls)

    def _entry(self):
        """must-hold locks on entry, greatest fixed point over callers; elements: lock ids and 'self'"""
        E = {}
        ALL = None
        for k, f in self.d.fns.items():
            E[k] = frozenset() if f.body is not None and self.open_entry(f) else ALL
        work = collections.deque(k for k in E)
        callees = collections.defaultdict(set)
        for k, l in self.calls.items():
            for (g, held, rp, n) in l:
                callees[g.key].add(k)
        inq = set(work)
        while work:
            k = work.popleft()
            inq.discard(k)
            f = self.d.fns.get(k)
            if f is None or self.open_entry(f):
                continue
            r = ALL
            for (g, held, rp, n) in self.calls.get(k, ()):
                if (g.qn, f.qn) in self.assume:
                    continue
                s = self.at(g, held, E.get(g.key))
                if s is None:
                    continue
                s = self.translate(s, g, held, rp, f, E.get(g.key))
                r = s if r is None else r & s
            if r != E[k]:
                E[k] = r
                for c in callees.get(k, ()):
                    if c not in inq:
                        work.append(c); inq.add(c)
        self.E = E

    def at(self, g, held, ent):
        if ent is None:
            return None
        return frozenset(h.id for h in held) | ent

    def translate(self, s, g, held, rp, f, ent):
        out = set(x for x in s if x != "self")
        if rp is not None:
            if rp == "this" and ("self" in ent or any(h.path == "this" for h in held)):
                out.add("self")
            elif any(h.path == rp for h in held):
                out.add("self")
        return frozenset(out)

    def shared(self, site):
        """is the access to an object other threads may reach at that point"""
        f = site.fn
        if self.E.get(f.key) is None:
            return False
        n = site.node
        own = n[3].rpartition("::")[0]
        p = ptext(n[2], self.al[f.key])
        if (f.kind in ("ctor", "dtor") or f.name == "initialize") and f.cls and self.d.isa(f.cls, own) and p == "this":
            return False
        return p not in self.fresh(f)

    def held_at(self, site):
        """lock ids held at a site"""
        return set(h.id for h in site.held) | set(self.E.get(site.fn.key) or ())

    def held_call(self, f, n):
        return self.callheld.get(id(n), ())

    def self_held(self, site, path):
        """is the lock of the object at `path` held there"""
        if any(h.path == path for h in site.held):
            return True
        return path == "this" and "self" in (self.E.get(site.fn.key) or ())


# classes whose public methods only the library itself calls
INTERNAL = """DocumentsWriter WaitQueue DocumentsWriterThreadState IndexFileDeleter BufferedDeletes ByteBlockAllocator
    ReaderPool MergeThread TermsHash TermsHashPerThread TermsHashPerField StoredFieldsWriter StoredFieldsWriterPerDoc
    StoredFieldsWriterPerThread TermVectorsTermsWriter TermVectorsTermsWriterPerDoc TermVectorsTermsWriterPerThread
    TermVectorsTermsWriterPerField NormsWriter DocFieldConsumers DocFieldProcessor DocFieldProcessorPerThread DocInverter
    DocInverterPerThread FreqProxTermsWriter InputFile SegmentReaderRef Norm CoreReaders OneMerge PerDocBuffer
    DocFieldProcessorPerField DocFieldProcessorPerThreadPerDoc FieldInvertState RawPostingList ByteBlockPool ByteSliceReader
    ByteSliceWriter CharBlockPool IntBlockPool""".split()
# and everything derived from the parts of the indexing chain
CHAIN = """DocConsumer DocConsumerPerThread DocFieldConsumer DocFieldConsumerPerThread DocFieldConsumerPerField InvertedDocConsumer
    InvertedDocConsumerPerThread InvertedDocConsumerPerField InvertedDocEndConsumer InvertedDocEndConsumerPerThread
    InvertedDocEndConsumerPerField TermsHashConsumer TermsHashConsumerPerThread TermsHashConsumerPerField DocWriter""".split()


def internal(c):
    return c in INTERNAL or any(db().isa(c, x) for x in CHAIN)



def api_now():
    """public methods of the classes a program may use (the source of data/api.txt)"""
    d = db()
    return sorted({f.qn for f in d.fns.values() if f.body is not None and f.cls and f.acc == "public" and not internal(f.cls)
                   and not f.file.startswith("src/test") and f.kind not in ("ctor", "dtor")})


ASSUME = [
    # the reader is written and its files are checkpointed only when it has pending changes, which only holders of the
    # writer's lock make and release (asserted there)
    ("ReaderPool::release", "IndexFileDeleter::checkpoint"),
]
_L = None


def locks():
    global _L
    if _L is None:
        import os
        p = os.path.join(os.path.dirname(__file__), "data", "api.txt")
        api = set(open(p).read().split())
        _L = Locks(api, ASSUME)
    return _L
