"""C11: what is paused, gated or reserved for one operation is released when the operation ends, however it ends."""
from ..reg import P
from ..pairs import Spec, PairSim, check
from ..sim import Sim, NUL, FALSE, TRUE
from ..sym import SymSim, isint
from ..db import db, name_of

W = "IndexWriter::"


D = "DocumentsWriter::"
# what each gate operation does to the gate, on every normal exit; (field, change or new value); wakes the waiting threads
PRIM = [(W + "acquireRead", [(W + "readCount", +1)], None), (W + "releaseRead", [(W + "readCount", -1)], "always"),
        (W + "releaseWrite", [(W + "writeThread", ("k", 0))], "always"),
        (W + "upgradeReadToWrite", [(W + "readCount", -1), (W + "upgradeCount", 0), (W + "writeThread", "current thread")], None),
        (W + "acquireWrite", [(W + "writeThread", "current thread"), (W + "readCount", 0)], None),
        (D + "pauseAllThreads", [(D + "pauseThreads", +1)], None), (D + "resumeAllThreads", [(D + "pauseThreads", -1)], "at zero"),
        (D + "clearFlushPending", [(D + "flushPending", FALSE)], None)]


class PrimSim(SymSim):
    """auto: (woken, known not to be zero, {field: value last assigned})"""
    cap = 200

    def __init__(self, fields):
        super().__init__()
        self.fields = fields

    def track(self, path, typ):
        return path[0] == "v" and isint(typ) or path[0] == "f" and path[2] in self.fields

    def havocable(self, p):
        return False

    def call_relevant(self, n):
        return True

    def may_throw(self, node, targets, st, fr):
        return name_of(node[2]).split("::")[-1] == "ensureOpen" if node[0] == "call" else False

    def inline(self, fn, node, st, fr):
        return fn.cls in ("IndexWriter", "DocumentsWriter") and (node[3] is None or node[3][0] == "this") and fn.body is not None and fn.name not in ("ensureOpen", "message", "doWait")

    def result(self, e, key, rp, vs, st, fr):
        if name_of(key) == "LuceneThread::currentId":
            return ("u", "me")
        return self.site(e, fr)

    def pre_call(self, node, key, rp, vs, st, fr):
        if name_of(key).split("::")[-1] == "notifyAll":
            st = st.a((True,) + st.auto[1:])
        return st

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] in self.fields:
            w, z, m = st.auto
            return st.a((w, z, tuple(sorted({**dict(m), path[2]: val}.items()))))
        return st

    def compare(self, c, a, b, st, fr):
        t, f = super().compare(c, a, b, st, fr)
        if c[2] == "==" and ("k", 0) in (a, b) and any(x[0] == "op" for x in (a, b)):
            f = [x.a((x.auto[0], True, x.auto[2])) for x in f]
        return t, f


def delta(v, old):
    """v - old for sums and differences with constants"""
    if v == old:
        return 0
    if v[0] == "op" and v[1] in ("+", "-"):
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if y[0] == "k" and (v[1] == "+" or y is v[3]):
                n = delta(x, old)
                return None if n is None else n + (y[1] if v[1] == "+" else -y[1])
    return None


def prims(res):
    d = db()
    for qn, eff, wake in PRIM:
        for f in d.byqn.get(qn, ()):
            s = PrimSim({x for x, y in eff})
            init = {("f", ("this",), x): ("u", "old", x) for x, y in eff}
            o = s.run(f, auto=(False, False, ()), env=init)
            res.ob("%s changes the gate by exactly one step and wakes the waiting threads" % qn)
            for v, st in o.R:
                last = dict(st.auto[2])
                for fld, ch in eff:
                    val = last.get(fld, ("u", "old", fld))
                    if ch == "current thread":
                        ok = val == ("u", "me")
                    elif isinstance(ch, tuple):
                        ok = val == ch
                    else:
                        ok = delta(val, ("u", "old", fld)) == ch
                    if not ok:
                        res.bad("%s/%s" % (qn, fld), "%s %s leaves %s with another value on a normal path: %s" % (f.where(), qn, fld, val))
                if wake and not st.auto[0] and (wake == "always" or not st.auto[1]):
                    res.bad("%s/wake" % qn, "%s %s can open the gate without waking the threads that wait for it" % (f.where(), qn))
            for e, st in o.X:
                for fld, val in st.auto[2]:
                    if delta(val, ("u", "old", fld)) != 0:
                        res.bad("%s/error" % qn, "%s %s changes %s although it reports an error" % (f.where(), qn, fld))


class FlushEnd(SymSim):
    """auto: request withdrawn"""
    slicing = False

    def track(self, path, typ):
        return path[0] == "v" and typ in ("bool", "LuceneException")

    def call_relevant(self, n):
        return True

    def inline(self, fn, node, st, fr):
        return fn.cls == "IndexWriter" and fn.name in self.names

    names = ()

    def may_throw(self, node, targets, st, fr):
        return not (node[0] == "call" and name_of(node[2]).split("::")[-1] in ("doBalanceRAM", "clearFlushPending", "message")) and Sim.may_throw(self, node, targets, st, fr)

    def pre_call(self, node, key, rp, vs, st, fr):
        if name_of(key) == D + "clearFlushPending":
            return st.a(True)
        return st


def flush_end(res):
    d = db()
    for f in d.byqn.get(W + "doFlush", ()):
        s = FlushEnd()
        s.names = {g.name for g in d.fns.values() if g.cls == "IndexWriter" and g.acc != "public" and g.body is not None and any(name_of(x[2]) == D + "clearFlushPending" for x in d.calls(g) if x[0] == "call")}
        o = s.run(f, auto=False)
        res.ob("%s withdraws the flush request on every exit" % f.qn)
        for v, st in o.R + o.X:
            if not st.auto:
                res.bad(f.qn + "/pending", "%s %s can end with the flush still marked as pending: every later add or delete waits for it" % (f.where(), f.qn))


class ClosingSim(PairSim):
    """auto: this call marked the writer as closing and has neither closed it nor taken the mark back"""
    slicing = False

    def __init__(self, spec, open_):
        super().__init__(spec, {})
        self.open = open_

    def inline(self, fn, node, st, fr):
        return fn.key in self.open

    def inline_many(self, ts, node, st, fr):
        return any(t.key in self.open for t in ts)

    def after_call(self, node, key, rp, vs, st, fr):
        return st

    def on_branch(self, c, v, t, f, fr):
        return t, f

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] == W + "closing":
            return st.a(val != FALSE)
        if path[0] == "f" and path[2] == W + "closed" and val == TRUE:
            return st.a(False)
        return st


def closing(res, spec):
    d = db()
    marks = {f.key for f in d.fns.values() if f.cls == "IndexWriter" and f.body is not None and f.name != "initialize" and not f.name.startswith("IndexWriter") and
             any(x[0] == "asg" and x[3][0] == "field" and x[3][3] in (W + "closing", W + "closed") for x in d.nodes(f))}
    roots = set()
    todo = list(marks)
    open_ = set(marks)
    while todo:
        k = todo.pop()
        if d.fns[k].acc == "public":
            roots.add(k)
            continue
        for c in d.callers(k):
            if c not in open_ and d.fns[c].cls == "IndexWriter":
                open_.add(c); todo.append(c)
    open_ -= roots
    for k in sorted(roots):
        f = d.fns[k]
        s = ClosingSim(spec, open_)
        o = s.run(f, auto=False, env={("f", ("this",), W + "closed"): FALSE, ("f", ("this",), W + "closing"): FALSE})
        res.ob("%s: the mark that the writer is closing is taken back unless it was closed" % f.key)
        for how, outs in (("a normal return", o.R), ("an error", o.X)):
            if any(st.auto for v, st in outs):
                res.bad(f.key + "/closing/" + how, "%s:%d a path through %s ending in %s leaves the writer marked as closing: every other close waits forever, every other call is refused" % (f.file, f.line, f.key, how))
    res.floor("closing operations", len(roots), 2)


def run(res, tier):
    prims(res)
    flush_end(res)
    sp = Spec({W + "acquireRead": [("read", 1)], W + "releaseRead": [("read", -1)], W + "acquireWrite": [("write", 1)],
               W + "releaseWrite": [("write", -1)], W + "upgradeReadToWrite": [("read", -1), ("write", 1)],
               "DocumentsWriter::pauseAllThreads": [("pause", 1)], "DocumentsWriter::resumeAllThreads": [("pause", -1)]},
              nothrow=(W + "releaseRead", W + "releaseWrite", "DocumentsWriter::resumeAllThreads", W + "message", W + "segString",
                       W + "acquireRead", W + "upgradeReadToWrite"),
              track_fields=(W + "docWriter", W + "closed"), resets=[(W + "docWriter", NUL, "pause")], stable=(W + "closed",),
              env={("f", ("this",), W + "closed"): FALSE}, calm=("IndexFileDeleter::decRef", W + "message", W + "finishMerges"),
              always=(W + "closeInternal",))
    closing(res, sp)
    sites, roots, unb = check(sp, res, "gates")
    res.floor("acquire/release call sites", sites, 20)
    res.floor("entry points", roots, 4)


PROPS = [P(
    "C11", "Paused threads and held gates are released however an operation ends",
    "When an index-writer operation (flush, add indexes, delete all, rollback, close, merge start-up and so on) pauses indexing threads or blocks other add/merge operations, it lets them go again and wakes them before it ends, whether it ends normally or with any error at any point; only a writer that is then closed may keep them stopped. The same holds for a pending flush request and for the mark that the writer is closing. It never releases what it did not take.",
    ["fault_sequences", "schedules"], "every function that takes or releases a gate, every path through it and its callees, an exception at every call that can throw",
    "A leaked gate shows up only as a later hang, after a failure at one specific call; the tests inject a handful of failures.",
    ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp"],
    [("acquireRead/releaseRead/acquireWrite/releaseWrite", "IndexWriter.cpp"), ("pauseAllThreads/resumeAllThreads", "DocumentsWriter.cpp")],
    "path-sensitive acquire/release balance with exceptional edges, unbalanced callees inlined into their callers",
    "Decides pairing of read gate, write gate and thread pause over all paths of IndexWriter; file-deleter reference drops, infoStream messages and finishMerges are assumed not to throw. std::bad_alloc and other non-Lucene exceptions are not modelled.",
    run, trusted=["lpp/sim.py (abstract interpreter)", "lpp/pairs.py"])]
