"""C40: a document that cannot be added leaves nothing behind and blocks nobody."""
from ..reg import P
from ..db import db, name_of, AnalysisError
from ..sym import SymSim, isint
from ..sim import Sim, TRUE, FALSE

D = "DocumentsWriter::"
T = "DocumentsWriterThreadState::"
# operations whose parts are looked into
OPEN = {D + x for x in ("updateDocument", "addDocument", "getThreadState", "finishDocument", "timeToFlushDeletes", "setFlushPending", "bufferDeleteTerm",
                        "bufferDeleteTerms", "bufferDeleteQuery", "bufferDeleteQueries")}
FLUSH = ("IndexWriter::flush", "IndexWriter::doFlush", D + "clearFlushPending")


class AddSim(SymSim):
    """auto: (thread state taken, flush requested, document: None/'taken'/'queued'/'settled'/'unqueued', the slot's own flush flag)"""
    cap = 400
    steps_cap = 400000
    slicing = False

    def __init__(self):
        super().__init__()
        d = self.db
        self.wrong = {}
        self.open = set()
        for q in OPEN:
            self.open |= {f.key for f in d.byqn.get(q, ())}
        # helpers that change one of the gates are part of the operations
        for f in d.fns.values():
            if f.cls in ("DocumentsWriter", "IndexWriter") and f.body is not None and f.name not in ("abort", "doAfterFlush", "flush", "doFlush", "doFlushInternal", "clearFlushPending") and f.key not in self.open:
                if self.touches(f):
                    self.open.add(f.key)
        n = -1
        while n != len(self.open):
            n = len(self.open)
            for f in d.fns.values():
                if f.cls in ("DocumentsWriter", "IndexWriter") and f.key not in self.open and f.body is not None and f.acc != "public" and \
                        f.qn not in FLUSH and f.name not in ("abort", "doFlushInternal", "doAfterFlush", "waitReady") and any(t.key in self.open for x in d.calls(f) if x[0] == "call" for t in d.targets(x, f.cls)):
                    self.open.add(f.key)

    def touches(self, f):
        from ..db import walk
        for x in walk(f.body):
            if x[0] in ("asg", "un") and len(x) > 3:
                y = x[3]
                if isinstance(y, list) and y[0] == "field" and y[3] in (D + "flushPending", D + "nextDocID", T + "isIdle", T + "doFlushAfter"):
                    return True
        return False

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException") or typ == "P<DocumentsWriterThreadState>" or typ == "P<DocumentsWriterThreadState>&"
        return path[0] == "f" and path[2] in (D + "flushPending", D + "aborting", "DocWriter::docID")

    def rd(self, p, st):
        if p[0] == "f" and p[2] == T + "doFlushAfter":
            return TRUE if st.auto[3] else FALSE
        return super().rd(p, st)

    def keep(self, c, v, fr):
        return False

    def havocable(self, p):
        return False

    def may_throw(self, node, targets, st, fr):
        if node[0] == "call" and name_of(node[2]).split("::")[-1] in ("message", "ensureOpen", "deleteNewFiles", "abortedFiles", "waitReady", "put", "get", "clear"):
            return False
        return Sim.may_throw(self, node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        return fn.key in self.open

    def inline_many(self, ts, node, st, fr):
        return any(t.key in self.open for t in ts)

    def call_relevant(self, n):
        return True

    def pre_call(self, node, key, rp, vs, st, fr):
        q = name_of(key)
        busy, fl, doc, own = st.auto
        if q in FLUSH:
            fl = False
            # the document itself was added before
            doc = doc if doc in (None, "unqueued") else "settled" if doc == "queued" or self.stopping(st) else "unqueued"
        if q == D + "abort":
            fl = False
            doc = doc and "settled"
            st = st.w(("f", ("this",), D + "flushPending"), FALSE)
        if q == D + "addDeleteDocID":
            doc = doc and ("settled" if doc == "queued" else "unqueued")
            if "DocState::docID" not in repr(vs[:1]):
                self.wrong[(fr.fn.file, node[1], fr.fn.qn)] = "deletes another document than the one that failed"
        if q == "WaitQueue::add" and vs and "skipDocWriter" in repr(vs[0]) and not any(p[0] == "f" and p[2] == "DocWriter::docID" and "DocState::docID" in repr(v) for p, v in st.env.items()):
            self.wrong[(fr.fn.file, node[1], fr.fn.qn)] = "passes over another number than that of the document"
        if q == "WaitQueue::add" and doc == "taken":
            doc = "queued"
        return st.a((busy, fl, doc, own))

    def stopping(self, st):
        """everything buffered is being discarded"""
        return any(p[0] == "f" and p[2] == D + "aborting" and v == TRUE for p, v in st.env.items())

    def on_assign(self, path, val, st, node, fr):
        if path[0] != "f":
            return st
        busy, fl, doc, own = st.auto
        if path[2] == T + "isIdle":
            busy = val != TRUE
            if busy and not fl:
                own = False         # an idle slot has no flush of its own outstanding
        if path[2] == T + "doFlushAfter":
            own = val != FALSE
        if path[2] == D + "flushPending":
            fl = val != FALSE
        if path[2] == D + "nextDocID" and node[0] == "un":
            doc = "taken"
        return st.a((busy, fl, doc, own))


def run_c40(res, tier):
    d = db()
    n = 0
    roots = sorted((f for f in d.fns.values() if f.cls == "IndexWriter" and f.acc == "public" and f.body is not None and
                    any(name_of(x[2]).startswith(D) and name_of(x[2]) in OPEN for x in d.calls(f) if x[0] == "call")), key=lambda f: f.key)
    seen = set()
    for f in roots:
        s = AddSim()
        o = s.run(f, auto=(False, False, None, False))
        res.count("path states explored", s.steps)
        n += 1
        for (fl_, line, qn), why in sorted(s.wrong.items()):
            res.bad("%s/which" % qn, "%s:%d (%s) %s" % (fl_, line, qn, why))
        for kind, outs in (("an error", o.X), ("a normal return", o.R)):
            for v, st in outs:
                busy, fl, doc, own = st.auto
                at = ""
                if kind == "an error":
                    at = " (%s)" % (v[1][1:].replace("<", " in ") if v[-1] and str(v[-1])[0] == "@" else v[0]) if isinstance(v, tuple) else ""
                if busy:
                    res.bad("%s/busy/%s" % (f.key, kind), "%s:%d a path through %s ending in %s%s leaves its thread state busy: every later flush, commit and close waits for it forever" % (f.file, f.line, f.key, kind, at))
                if fl:
                    res.bad("%s/flush/%s" % (f.key, kind), "%s:%d a path through %s ending in %s%s leaves a flush requested that nobody performs or withdraws: other threads wait for it" % (f.file, f.line, f.key, kind, at))
                if doc == "unqueued" or kind == "a normal return" and doc == "taken" and not s.stopping(st):
                    res.bad("%s/number" % f.key, "%s:%d a path through %s ending in %s%s never hands the document's number on: documents added after it wait for it forever" % (f.file, f.line, f.key, kind, at))
                if kind == "an error" and doc in ("taken", "queued"):
                    res.bad("%s/doc" % f.key, "%s:%d a path through %s ending in an error%s neither deletes the partly added document nor aborts the buffer" % (f.file, f.line, f.key, at))
        res.ob("%s: thread state, requested flush and document settled on every exit" % f.key)
    res.floor("add and delete operations", n, 6)


PROPS = [P(
    "C40", "A document that cannot be added leaves nothing behind and blocks nobody",
    "When adding or updating a document fails at any point (analysis, inverting, finishing), the document is deleted again or everything buffered with it is discarded, so it never becomes visible. However an add, update or delete call ends, its indexing slot is free again and a flush it requested has been run or withdrawn, so that later adds, flushes and closes do not wait for it forever.",
    ["fault_sequences", "schedules"], "every public add, update and delete operation of the writer; every path through it and the document writer, an error at every call that can throw",
    "A slot that stays busy or a request that stays pending shows only as a hang of another call, after an error at one specific call.",
    ["src/core/index/DocumentsWriter.cpp", "src/core/index/IndexWriter.cpp"],
    [("updateDocument/getThreadState/finishDocument", "DocumentsWriter.cpp"), ("addDocument/updateDocument/deleteDocuments", "IndexWriter.cpp")],
    "path-sensitive typestate (slot, flush request, document number) over the writer's operations with exceptional edges at every call, helpers inlined",
    "The flush itself (clearing the request on every exit) is decided as part of C11. Errors other than the library's own exception type are not modelled.",
    run_c40, trusted=["lpp/sim.py (abstract interpreter)"])]
