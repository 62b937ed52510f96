"""C37: a writer that has run out of memory publishes nothing more."""
from ..reg import P
from ..db import db, walk, is_node, name_of
from ..mustset import Must
from ..sim import Sim, TRUE

PUBLISH = ("SegmentInfos::prepareCommit", "SegmentInfos::commit", "DocumentsWriter::flush", "SegmentMerger::merge",
           "DocumentsWriter::close")     # the last: an orderly close, which commits, instead of a rollback
BUFFER = ("DocumentsWriter::addDocument", "DocumentsWriter::updateDocument", "DocumentsWriter::bufferDeleteTerm", "DocumentsWriter::bufferDeleteTerms",
          "DocumentsWriter::bufferDeleteQuery", "DocumentsWriter::bufferDeleteQueries", "DocumentsWriter::flush", "SegmentInfos::prepareCommit", "SegmentInfos::commit",
          "SegmentMerger::merge")


def flag(d):
    """the writer's memory flag: the field that the functions taking the out-of-memory error set"""
    out = set()
    for f in d.fns.values():
        if f.cls == "IndexWriter" and f.body is not None and any("bad_alloc" in p[1] for p in f.params):
            for n in d.nodes(f):
                if n[0] == "asg" and n[2] == "=" and n[3][0] == "field" and is_node(n[4]) and n[4][0] == "bool" and n[4][2]:
                    out.add(n[3][3])
    return out


class OomSim(Sim):
    """the memory flag is set: which publishing operations can still be reached?"""
    cap = 120
    steps_cap = 400000

    def __init__(self, fields, near, sinks, closing):
        super().__init__()
        self.closing = closing
        self.flags = fields; self.near = near; self.sinks = sinks; self.hit = {}

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException")
        return path[0] == "f" and path[2] in self.flags

    def havocable(self, p):
        return p[2] not in self.flags

    def call_relevant(self, n):
        return n[0] == "call" and (name_of(n[2]) in PUBLISH or name_of(n[2]) == "DocumentsWriter::abort" or any(t.key in self.sinks or t.key in self.near for t in self.db.targets(n)) or super().call_relevant(n))

    def field_relevant(self, qn, typ):
        return qn in self.flags

    def inline(self, fn, node, st, fr):
        return fn.key in self.near and fn.key not in self.sinks

    def pre_call(self, node, key, rp, vs, st, fr):
        q = name_of(key)
        if q == "DocumentsWriter::abort":
            return st.a(True)       # buffered changes are gone: what follows is a rollback
        ks = {t.key for t in self.db.targets(node)} & self.sinks
        if q in PUBLISH or ks:
            c = q == "DocumentsWriter::close" or bool(ks) and ks <= self.closing
            if not (c and st.auto):
                self.hit.setdefault((fr.fn.file, node[1], fr.fn.qn, q, c), 1)
        return st


def readers(d, fl):
    """writer functions that test the flag, or that call one on this (two levels)"""
    own = [f for f in d.fns.values() if f.cls == "IndexWriter" and f.body is not None]
    near = {f.key for f in own if any(n[0] == "field" and n[3] in fl for n in d.nodes(f))}
    for _ in range(3):
        near |= {f.key for f in own if any(c[0] == "call" and (c[3] is None or c[3][0] == "this") and any(t.key in near for t in d.targets(c)) for c in d.calls(f))}
    return near


def sets_flag(d, s, m, fl):
    if not is_node(s):
        return False
    k = s[0]
    if k in ("block", "decls"):
        return any(sets_flag(d, x, m, fl) for x in s[2] if x)
    if k == "if":
        return sets_flag(d, s[2], m, fl) or (s[4] is not None and sets_flag(d, s[3], m, fl) and sets_flag(d, s[4], m, fl))
    if k == "try":
        return sets_flag(d, s[2], m, fl)
    if k in ("while", "for", "rfor", "switch", "lambda"):
        return False
    if k == "asg" and s[3][0] == "field" and s[3][3] in fl and s[4][0] == "bool" and s[4][2]:
        return True
    if k == "call":
        ts = d.targets(s)
        if ts and all((m.fn(t) or frozenset()) & fl or sets_flag(d, t.body, m, fl) for t in ts if t.cls == "IndexWriter") and any(t.cls == "IndexWriter" for t in ts):
            return True
    return any(sets_flag(d, x, m, fl) for c in s[2:] for x in m._sub(c))


def covered(d, f, memo, m, fl, bad, stack=()):
    """calls in f that buffer or publish, outside every try with an out-of-memory handler"""
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = out = []

    def go(n, safe):
        if not is_node(n):
            if isinstance(n, list):
                for x in n:
                    go(x, safe)
            return
        if n[0] == "try":
            hs = [h for h in n[3] if "bad_alloc" in h[1] or "std::exception" in h[1]]
            go(n[2], safe or bool(hs))
            for h in n[3]:
                go(h[-1], safe)
            return
        if n[0] == "call" and not safe and name_of(n[2]) in BUFFER:
            out.append((n[1], name_of(n[2])))
        for c in n[1:]:
            if isinstance(c, list):
                go(c, safe)
    go(f.body, False)
    return out


def keyof(g):
    return g if isinstance(g, str) else g.key


def run(res, tier):
    d = db()
    fl = flag(d)
    res.floor("memory flags of the writer", len(fl), 1)
    m = Must("IndexWriter")
    own = sorted((f for f in d.fns.values() if f.cls == "IndexWriter" and f.body is not None and f.file.startswith("src/core")), key=lambda f: f.line)
    # start-up: there is no writer yet that could have run out of memory
    start = {f.key for f in own if f.kind == "ctor" or f.name == "initialize"}
    while True:
        more = {f.key for f in own if f.key not in start and f.acc != "public" and d.callers(f.key) and {keyof(g) for g in d.callers(f.key)} <= start}
        if not more:
            break
        start |= more
    own = [f for f in own if f.key not in start]
    # remembered
    nh = 0
    for f in own:
        for t in walk(f.body):
            if t[0] == "try":
                for h in t[3]:
                    if "bad_alloc" in h[1]:
                        nh += 1
                        res.ob("%s:%d %s: running out of memory is remembered" % (f.file, h[0], f.qn))
                        if not sets_flag(d, h[-1], m, fl):
                            res.bad("%s/forgotten" % f.qn, "%s:%d %s: a path of the out-of-memory handler does not mark the writer" % (f.file, h[0], f.qn))
        for n in d.nodes(f):
            if n[0] == "asg" and n[3][0] == "field" and n[3][3] in fl and not (n[4][0] == "bool" and n[4][2]) and f.kind != "ctor" and f.name != "initialize":
                res.bad("%s/cleared" % f.qn, "%s:%d %s clears the writer's out-of-memory mark" % (f.file, n[1], f.qn))
    res.floor("out-of-memory handlers", nh, 8)
    # caught: every buffering or publishing call lies in a try with such a handler, here or in every caller
    todo = {}
    for f in own:
        for ln, q in covered(d, f, {}, m, fl, None):
            todo.setdefault(f.key, []).append((ln, q))
    nb = 0

    def safe_callers(k, seen):
        """is every call of function k (by the writer) inside a try with a handler?"""
        f = d.fns[k]
        if f.acc == "public":
            return None
        cs = [g for g in own if any(c[0] == "call" and any(t.key == k for t in d.targets(c)) for c in d.calls(g))]
        for g in cs:
            for ln in open_calls(g, k):
                if g.key in seen:
                    continue
                if not safe_callers(g.key, seen | {g.key}):
                    return False
        return bool(cs)

    def open_calls(g, k):
        out = []

        def go(n, safe):
            if not is_node(n):
                if isinstance(n, list):
                    for x in n:
                        go(x, safe)
                return
            if n[0] == "try":
                go(n[2], safe or any("bad_alloc" in h[1] or "std::exception" in h[1] for h in n[3]))
                for h in n[3]:
                    go(h[-1], safe)
                return
            if n[0] == "call" and not safe and any(t.key == k for t in d.targets(n)):
                out.append(n[1])
            for c in n[1:]:
                if isinstance(c, list):
                    go(c, safe)
        go(g.body, False)
        return out
    for f in own:
        calls = [c for c in d.calls(f) if c[0] == "call" and name_of(c[2]) in BUFFER]
        nb += len(calls)
        for c in calls:
            res.ob("%s:%d %s: running out of memory in %s is caught by the writer" % (f.file, c[1], f.qn, name_of(c[2])))
        if f.key in todo and not safe_callers(f.key, {f.key}):
            ln, q = todo[f.key][0]
            res.bad("%s/uncaught" % f.qn, "%s:%d %s calls %s outside every out-of-memory handler, so the writer does not notice" % (f.file, ln, f.qn, q))
    res.floor("buffering and publishing calls", nb, 8)
    # refused
    near = readers(d, fl)
    sinks = set(); closing = set(); why = {}
    env = {("f", ("this",), x): TRUE for x in fl}
    work = [f for f in own if any(c[0] == "call" and name_of(c[2]) in PUBLISH for c in d.calls(f))]
    done = set(); n = 0
    while work:
        f = work.pop()
        if f.key in sinks:
            continue
        n += 1
        s = OomSim(fl, near, sinks - {f.key}, closing)
        s.run(f, cls="IndexWriter", env=env, auto=False)
        res.ob("%s publishes nothing once the writer ran out of memory" % f.qn)
        if not s.hit:
            continue
        sinks.add(f.key); why[f.key] = sorted(s.hit)[0]
        if all(x[4] for x in s.hit):
            closing.add(f.key)
        if f.acc == "public":
            fl0, ln, qn, q, _ = why[f.key]
            res.bad("%s/not refused" % f.qn, "%s:%d %s can still reach %s (%s:%d %s) after the writer ran out of memory" % (f.file, f.line, f.qn, q, fl0, ln, qn))
        work += [g for g in own if g.key not in sinks and any(c[0] == "call" and any(t.key == f.key for t in d.targets(c)) for c in d.calls(g))]
    res.floor("functions that publish", n, 3)


PROPS = [P(
    "C37", "A writer that ran out of memory publishes nothing more",
    "When adding, updating or deleting documents, flushing, merging or committing runs out of memory, the index writer notices and remembers it for good. From then on it starts no flush, merge or commit - each of those raises an error or does nothing - and closing it rolls back to the last commit instead of committing.",
    ["fault_sequences", "histories"], "every operation of the writer that buffers documents or deletions, flushes, merges or commits; every path to such an operation when the writer has run out of memory before",
    "No test runs the process out of memory; what the writer would publish afterwards are half-updated buffers.",
    ["src/core/index/IndexWriter.cpp", "include/lucene++/IndexWriter.h"],
    [("handleOOM / hitOOM", "IndexWriter.cpp"), ("startCommit, doFlushInternal, commitMerge, _mergeInit, close", "IndexWriter.cpp")],
    "abstract interpretation of every writer function that reaches a flush, merge or commit with the memory flag set (unguarded ones propagate to their callers up to the public interface), plus must-set analysis of the out-of-memory handlers and lexical coverage of the calls that buffer or publish",
    "Memory exhaustion inside background threads outside the merge path, and whether the rollback itself completes, are not decided.",
    run, trusted=["lpp/sim.py (abstract interpreter)", "lpp/mustset.py"])]
