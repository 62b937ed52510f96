"""C08 waiting and notification; C09 shared state is touched under its lock; C10 lock order."""
import collections
import os
from ..reg import P
from ..db import db, walk, is_node, name_of, strip_type, AnalysisError
from ..locks import locks, ptext, family

DATA = os.path.join(os.path.dirname(os.path.dirname(__file__)), "data")


# ---- C09 ------------------------------------------------------------------------------------------------------------
def guards():
    for l in open(os.path.join(DATA, "guards.txt")):
        if l.startswith("#") or not l.strip():
            continue
        w = l.split()
        yield w[0], w[1], w[2].split("|"), set(w[3].split(",")) if len(w) > 3 else set()


def run09(res, tier):
    L = locks()
    d = db()
    nf = n = 0
    for field, mode, gs, skip in guards():
        S = L.fields.get(field)
        if not S:
            continue
        nf += 1
        for s in S:
            if (mode == "write" and not s.write) or not L.shared(s) or exempt(L, s.fn, skip):
                continue
            n += 1
            p = ptext(s.node[2], L.al[s.fn.key])
            held = L.held_at(s)
            ok = any(own(L, s, p, field, held) if g == "self" else g in held for g in gs)
            res.ob("%s:%d %s holds the lock of %s" % (s.fn.file, s.node[1], s.fn.key, field))
            if not ok:
                res.bad("%s/%s" % (s.fn.key, field), "%s:%d %s %s %s without holding %s (held: %s)%s"
                        % (s.fn.file, s.node[1], s.fn.qn, "changes" if s.write else "reads", field,
                           " or ".join("the lock of its object" if g == "self" else "the lock of " + g for g in gs),
                           ", ".join(sorted(held)) or "none", via(L, s.fn)))
    for field, lock, names in callguards():
        k = 0
        for s in L.named.get(field[:-2], ()) if field.endswith("()") else ():
            k += 1
            res.ob()
            if lock not in L.held_at(s):
                res.bad("%s/%s" % (s.fn.key, field), "%s:%d %s uses %s without holding %s" % (s.fn.file, s.node[1], s.fn.qn, field, lock))
        for s in L.fields.get(field, ()):
            f = s.fn
            for c in d.calls(f):
                if c[0] != "call" or not is_node(c[3]) or (names != "*" and name_of(c[2]).split("::")[-1] not in names.split(",")):
                    continue
                o = c[3]
                while o[0] in ("arrow", "star"):
                    o = o[2]
                if o is not s.node and not (o[0] == "var" and L.al[f.key].get(o[2], "").endswith("." + field)):
                    continue
                held = L.held_call(f, c)
                p = ptext(o, L.al[f.key])
                k += 1
                res.ob("%s:%d %s calls %s under its lock" % (f.file, c[1], f.key, name_of(c[2])))
                if lock == "target":
                    ok = any(h.path == p for h in held) or family(strip_type(s.node[4])) in (L.E.get(f.key) or ())
                else:
                    ok = any(h.id == lock for h in held) or lock in (L.E.get(f.key) or ())
                if not ok:
                    res.bad("%s/%s" % (f.key, name_of(c[2])), "%s:%d %s calls %s on the object in %s without holding %s"
                            % (f.file, c[1], f.qn, name_of(c[2]), field, "its lock" if lock == "target" else lock))
        res.count("calls through " + field, k)
    res.count("guarded fields", nf)
    res.count("accesses", n)
    res.count("scoped locks", len(L.sync))
    res.floor("guarded fields", nf, 120)


def exempt(L, f, skip, depth=4):
    """a function left out by name, or a helper reached without the lock only from such functions"""
    if f.qn in skip:
        return True
    if not skip or depth == 0 or L.open_entry(f):
        return False
    cs = L.calls.get(f.key, ())
    return bool(cs) and all(held or L.E.get(g.key) or exempt(L, g, skip, depth - 1) for g, held, rp, n in cs) and \
        any(exempt(L, g, skip, depth - 1) for g, held, rp, n in cs)


def callguards():
    for l in open(os.path.join(DATA, "callguards.txt")):
        if l.startswith("#") or not l.strip():
            continue
        w = l.split()
        yield w[1][3:], w[2], w[3]


def own(L, s, p, field, held):
    """is the lock of the object that holds the field held; an object reached another way than the lock counts by family"""
    if L.self_held(s, p):
        return True
    fam = family(field.rpartition("::")[0])
    return fam in (L.E.get(s.fn.key) or ()) or (p != "this" and fam in held)


def via(L, f):
    """a caller that reaches the function without the lock"""
    if L.open_entry(f):
        return ""
    cs = ["%s:%d %s" % (g.file, n[1], g.qn) for g, held, rp, n in L.calls.get(f.key, ())]
    return "; called from " + ", ".join(cs[:3]) if cs else ""


# ---- C08 ------------------------------------------------------------------------------------------------------------
WAIT, NOTIFY = "LuceneSync::wait", "LuceneSync::notifyAll"


def shared_read(f, e, loop):
    """does the expression look at something another thread can change (a field, a call, a local set in the loop)"""
    names = set()
    for n in walk(loop):
        if n[0] == "asg" and n[3][0] == "var":
            names.add(n[3][2])
        elif n[0] == "decl":
            names.add(n[2])
    return any(n[0] in ("field", "call", "gvar") or n[0] == "var" and n[2] in names for n in walk(e))


def leaves(n):
    """does the statement leave the loop it stands in"""
    if n[0] in ("break", "return", "throw", "goto"):
        return True
    if n[0] in ("while", "do", "for", "rfor", "lambda"):
        return any(m[0] in ("return", "throw") for m in walk(n))
    if n[0] == "call" and name_of(n[2]).endswith("throw_exception"):
        return True
    from ..db import kids
    return any(leaves(k) for k in kids(n))


def literal_true(e):
    return not is_node(e) or e[0] in ("bool", "int") and e[2] in (True, 1)


def decisions(f, loop, wait):
    """conditions that decide whether the loop goes on (or whether it waits again)"""
    from ..db import kids
    cond = loop[2] if loop[0] == "while" else loop[3] if loop[0] in ("do", "for") else None
    out = [(cond, loop)] if is_node(cond) and not literal_true(cond) else []

    def rec(n):
        if n[0] == "if" and is_node(n[2]):
            if any(m is wait for m in walk(n)) or leaves(n):
                out.append((n[2], n))
        for k in kids(n):
            rec(k)
    body = loop[3] if loop[0] == "while" else loop[2] if loop[0] == "do" else loop[-1]
    if is_node(body):
        rec(body)
    return out


def run08(res, tier):
    from ..locks import scan, callee_name
    L = locks()
    d = db()
    n = 0
    heldat = {}

    def held_of(f):
        h = heldat.get(f.key)
        if h is None:
            h = heldat[f.key] = {}

            def visit(x, held, loops):
                h[id(x)] = (held, loops)
            scan(f, visit)
        return h

    def judge(f, call, path, depth, trail, own):
        """the call (of wait, or of a function that waits for its caller) stands in a loop that looks again, under the lock"""
        nonlocal n
        held, loops = held_of(f)[id(call)]
        here = "%s:%d %s" % (f.file, call[1], f.qn)
        n += 1
        locked = any(h.path == path for h in held) or path == "this" and "self" in (L.E.get(f.key) or ())
        if not loops and depth < 4:
            # a helper that waits once: its callers loop
            cs = [(g, node) for g, hh, rp, node in L.calls.get(f.key, ())]
            if cs and path == "this" and not L.open_entry(f):
                res.ob("%s waits for its callers" % here)
                if depth == 0 and not locked:
                    res.bad("%s/lock" % f.key, "%s waits on %s without holding its lock" % (here, path))
                for g, node in cs:
                    judge(g, node, ptext(node[3], L.al[g.key]) if is_node(node[3]) else "this", depth + 1, trail + [here], own)
                return
        res.ob("%s waits in a loop that looks again under the lock of %s" % (here, path))
        if not locked:
            res.bad("%s/lock" % f.key, "%s waits on %s without holding its lock" % (here, path))
            return
        if not loops:
            res.bad("%s/loop" % f.key, "%s waits outside a loop: a wake-up does not mean that the awaited state was reached" % here)
            return
        ds = []
        for lp in reversed(loops):
            ds = [(c, at) for c, at in decisions(f, lp, call) if shared_read(f, c, lp)]
            if ds:
                break
        if not ds:
            res.bad("%s/recheck" % f.key, "%s waits in a loop that does not look again at what it waits for" % here)
            return
        decls = {m[2]: m for m in d.nodes(f) if m[0] == "decl"}
        for c, at in decisions(f, loops[-1], call):
            old = [m for m in walk(c) if m[0] == "var" and m[2] in decls and is_node(decls[m[2]][4]) and
                   any(x[0] in ("call", "field") for x in walk(decls[m[2]][4]))]
            if old and not shared_read(f, c, loops[-1]):
                res.bad("%s/stale" % f.key, "%s decides in its waiting loop on %s, which was read before the loop and never again"
                        % (here, old[0][2].split("@")[0]))
                return
        ok = False
        for c, at in ds:
            hh = held_of(f).get(id(at), ((), ()))[0]
            if at is lp and lp[0] == "do":
                hh = held
            if any(h.path == path for h in hh) or path == "this" and "self" in (L.E.get(f.key) or ()):
                ok = True
        if not ok:
            res.bad("%s/atomic" % f.key, "%s looks at what it waits for before it takes the lock it waits with: the change and its notification "
                    "can fall in between" % here)

    for s in L.named.get(WAIT, ()):
        if s.fn.cls in ("LuceneSync", "LuceneSignal"):
            continue
        judge(s.fn, s.node, ptext(s.node[3], L.al[s.fn.key]) if is_node(s.node[3]) else "this", 0, [], s)
    res.count("waits", n)
    res.floor("waits", n, 16)
    untimed(res, L, d)
    primitive(res, d)


def arg_int(a):
    return a[2] if is_node(a) and a[0] == "int" else None


def untimed(res, L, d):
    """whoever ends a wait without time limit notifies"""
    k = 0
    for s in L.named.get(WAIT, ()):
        if s.fn.cls in ("LuceneSync", "LuceneSignal"):
            continue
        a = s.node[4]
        if a and arg_int(a[0]) != 0:
            continue
        if not s.loops:
            continue
        res.count("untimed waits", 1)
        path = ptext(s.node[3], L.al[s.fn.key])
        reads = collections.defaultdict(set)
        for lp in s.loops[-1:]:
            for c, at in decisions(s.fn, lp, s.node):
                for m in walk(c):
                    if m[0] == "field" and ptext(m[2], L.al[s.fn.key]) == "this":
                        reads[m[3]].add(True)
        # what ends the wait: members added to what must contain, removed from what must not
        for f in d.fns.values():
            if f.body is None or f.cls != s.fn.cls or f.kind in ("ctor", "dtor") or f.name == "initialize":
                continue
            ops = []
            for m in d.nodes(f):
                if m[0] == "call" and is_node(m[3]) and m[3][0] == "field" and m[3][3] in reads:
                    op = name_of(m[2]).split("::")[-1]
                    if op in ("remove", "clear", "removeAll", "erase") or op in ("add", "put", "addAll") and "." + m[3][3] == path[4:]:
                        ops.append((m, op))
            if not ops:
                continue
            notes = [m for m in d.nodes(f) if m[0] == "call" and name_of(m[2]) == NOTIFY and is_node(m[3]) and ptext(m[3], L.al[f.key]) == path]
            for m, op in ops:
                k += 1
                res.ob("%s:%d %s notifies" % (f.file, m[1], f.key))
                if not any(uncond(f, x) for x in notes) and not any(dominates_exit(f, m, x) for x in notes):
                    res.bad("%s/notify" % f.key, "%s:%d %s ends a wait without time limit (%s %s) and does not always notify the waiting threads"
                            % (f.file, m[1], f.qn, op, m[3][3]))
    res.count("changes that end an untimed wait", k)


def uncond(f, x):
    """is the call a statement of the outermost block that no earlier statement can skip"""
    for st in f.body[2]:
        if is_node(st) and st[0] in ("expr",) and any(m is x for m in walk(st)):
            return True
        if is_node(st) and st[0] != "decl" and any(m[0] == "return" for m in walk(st)):
            return False
    return False


def dominates_exit(f, m, x):
    """change and notification are statements of one block, the notification after the change"""
    for b in walk(f.body):
        if b[0] == "block":
            im = [i for i, st in enumerate(b[2]) if is_node(st) and st[0] == "expr" and any(k is m for k in walk(st))]
            ix = [i for i, st in enumerate(b[2]) if is_node(st) and st[0] == "expr" and any(k is x for k in walk(st))]
            if im and ix:
                return im[0] <= ix[0]
    return False


SLEEPS = ("boost::condition_variable_any::wait", "boost::condition_variable_any::timed_wait", "boost::condition_variable::wait",
          "boost::condition_variable::timed_wait", "std::condition_variable::wait", "std::condition_variable::wait_for",
          "boost::condition_variable_any::wait_for", "boost::condition_variable::wait_for")


def primitive(res, d):
    """the signal: the mutex of the condition is held from before the object lock is given up until the thread sleeps"""
    k = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.file.startswith("src/test"):
            continue
        own = [m for m in d.nodes(f) if m[0] == "call" and (name_of(m[2]) in SLEEPS or name_of(m[2]).startswith(("boost::condition_variable", "std::condition_variable"))
                                                            and name_of(m[2]).split("::")[-1] in ("notify_all", "notify_one"))]
        if not own:
            continue
        roots = [f]
        # a helper is judged inside the methods of its class that call it
        while True:
            up = []
            for r in roots:
                cs = {g.key: g for g, h, rp, n in locks().calls.get(r.key, ()) if g.cls == r.cls and g.key != r.key}
                up += cs.values() if cs else [r]
            up = list({u.key: u for u in up}.values())
            if {u.key for u in up} == {r.key for r in roots}:
                break
            roots = up
        for r in roots:
            k += 1
            Ev(r, res, d).go()
    res.count("condition variable users", k)
    res.floor("condition variable users", k, 2)


class Ev:
    """states: (mutexes held, object lock given up)"""

    def __init__(self, f, res, d):
        self.f = f; self.res = res; self.d = d; self.seen = set()

    def go(self):
        self.res.ob("%s uses its condition under its mutex" % self.f.key)
        self.block(self.f.body, {(frozenset(), False)}, 0, self.f)

    def block(self, b, sts, depth, f):
        own = []
        for st in b[2] if b[0] == "block" else [b]:
            if not is_node(st):
                continue
            if st[0] == "decl" and is_node(st[4]) and ("lock" in st[3]) and "mutex" in st[3] and st[4][0] == "ctor" and st[4][4]:
                m = ptext(st[4][4][0], {})
                own.append((st[2], m))
                sts = {(h | {m}, r) for h, r in sts}
                self.names = dict(getattr(self, "names", {}), **{st[2]: m})
                continue
            sts = self.stmt(st, sts, depth, f)
        for v, m in own:
            sts = {(h - {m}, r) for h, r in sts}
        return sts

    def stmt(self, st, sts, depth, f):
        k = st[0]
        if k == "block":
            return self.block(st, sts, depth, f)
        if k == "if":
            sts = self.expr(st[2], sts, depth, f)
            a = self.stmt(st[3], sts, depth, f) if is_node(st[3]) else sts
            b = self.stmt(st[4], sts, depth, f) if len(st) > 4 and is_node(st[4]) else sts
            return a | b
        from ..db import kids
        if k in ("while", "do", "for", "rfor", "try", "switch"):
            for x in kids(st):
                sts = sts | self.stmt(x, sts, depth, f)
            return sts
        return self.expr(st, sts, depth, f)

    def expr(self, e, sts, depth, f):
        for m in post(e):
            if m[0] != "call":
                continue
            q = name_of(m[2])
            last = q.split("::")[-1]
            if q in SLEEPS:
                mx = {ptext(m[4][0], {}), self.names.get(m[4][0][2]) if m[4][0][0] == "var" and hasattr(self, "names") else None} if m[4] else set()
                for h, r in sts:
                    if not (mx & h):
                        self.bad("%s:%d %s sleeps on the condition without its mutex" % (f.file, m[1], f.qn))
            elif last in ("notify_all", "notify_one") and "condition_variable" in q:
                for h, r in sts:
                    if not h:
                        self.bad("%s:%d %s signals the condition without the mutex: a thread between giving up the object lock and sleeping misses it"
                                 % (f.file, m[1], f.qn))
                if last == "notify_one":
                    self.bad("%s:%d %s wakes only one of the waiting threads" % (f.file, m[1], f.qn))
            elif q in ("Synchronize::unlockAll", "Synchronize::unlock"):
                for h, r in sts:
                    if not h:
                        self.bad("%s:%d %s gives up the object lock before it holds the mutex of the condition: a notification sent in between is lost"
                                 % (f.file, m[1], f.qn))
                sts = {(h, True) for h, r in sts}
            elif q == "Synchronize::lock":
                for h, r in sts:
                    if h and r:
                        self.bad("%s:%d %s takes the object lock back while it holds the mutex of the condition" % (f.file, m[1], f.qn))
            elif last in ("unlock", "lock") and is_node(m[3]) and "mutex" in str(m[6] if len(m) > 6 else "") + str(m[3]):
                p = ptext(m[3], {})
                p = getattr(self, "names", {}).get(p, p)
                sts = {(h - {p} if last == "unlock" else h | {p}, r) for h, r in sts}
            elif depth < 3 and self.f.cls and q.startswith(self.f.cls + "::"):
                for t in self.d.targets(m):
                    g = t if t.body is not None else None
                    if g is not None and g.cls == self.f.cls and g.key not in self.seen:
                        self.seen.add(g.key)
                        sts = self.block(g.body, sts, depth + 1, g)
                        self.seen.discard(g.key)
        return sts

    def bad(self, msg):
        self.res.bad("%s/signal" % self.f.key, msg)


def post(e):
    from ..db import kids
    for k in kids(e):
        yield from post(k)
    yield e


# ---- C10 ------------------------------------------------------------------------------------------------------------
# edges between different objects of one class, which no two threads use in both directions
APART = {("CloseableThreadLocal", "CoreReaders"), ("RAMFile", "DocumentsWriter")}


def run10(res, tier):
    from ..lockorder import Order
    O = Order()
    res.count("lock pairs", len(O.edges))
    res.count("places", sum(len(l) for l in O.edges.values()))
    for (a, b), l in sorted(O.edges.items()):
        res.ob("%s before %s (%d places, e.g. %s)" % (a, b, len(l), l[0]))
    seen = set()
    for c in sorted(O.circles(APART), key=len):
        edges = frozenset((e.a, e.b) for e in c)
        if any(s <= edges for s in seen):
            continue
        seen.add(edges)
        res.bad(" ".join(sorted(e.a for e in c)), "threads can block each other for ever: " +
                "; ".join("%s holds %s and waits for %s" % (e, e.a, e.b) for e in c))
    res.floor("lock pairs", len(O.edges), 90)


PROPS = [
    P("C08", "Waiting threads look again under the lock and miss no notification",
      "A thread that waits on an object holds that object's lock, waits inside a loop that looks again at what it waits for while "
      "the lock is held, and cannot miss a notification sent between giving up the lock and going to sleep. "
      "Whatever ends a wait without time limit is followed by a notification of all waiting threads.",
      "schedules", "all interleavings of waiting and notifying threads",
      "a lost wake-up or a stale decision needs one particular interleaving, which a test hits by luck at best",
      ["src/core/util/LuceneSignal.cpp", "src/core/util/LuceneSync.cpp", "src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp",
       "src/core/index/ConcurrentMergeScheduler.cpp"],
      [("wait/notify", "LuceneSync, LuceneSignal"), ("wait sites", "IndexWriter::doWait and its callers, DocumentsWriter::waitReady")],
      "monitor-discipline analysis: every wait site (through wrappers, up the call graph) against the scoped locks and loops around it; typestate of the signal primitive",
      "decides where threads wait, not that what they wait for comes; waits with a time limit may be woken late", run08),
    P("C10", "Threads never block each other for ever",
      "Threads that share writers, readers, merge schedulers and directories take locks, the add-indexes gate, indexing pauses and waits "
      "for merge threads in an order without circles, so that no set of them can block each other for ever. "
      "In particular no thread waits for merge threads or for indexing threads while it holds a lock those threads need to finish.",
      "schedules", "all interleavings of threads and all call paths on which a lock, gate or wait is entered while another is held",
      "a deadlock needs threads at two particular places at once; tests almost never get there",
      ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/ConcurrentMergeScheduler.cpp",
       "src/core/index/SegmentReader.cpp", "src/core/index/TermsHash.cpp"],
      [("scoped object locks", "SyncLock declarations throughout src/core"), ("pauses, gates and waits", "pauseAllThreads, acquireRead/Write, sync, waitForMerges")],
      "lock-order analysis over the call graph: holds-while-acquiring edges between locks, gates, pauses and merge waits, circles without a common guarding lock",
      "locks are told apart by class, not by object: two objects of one class are not ordered among themselves, and two pairs of classes "
      "whose objects differ are left out; code that programs plug in (streams, directories, analyzers, queries) is not followed", run10),
    P("C09", "Shared state is only touched under its lock",
      "The state that several threads share in the index writer, its document buffers and merge bookkeeping, the file "
      "deleter, the reader pool, reference counts, norms, in-memory files, lock registries and caches is only changed "
      "while the lock that guards it is held, and, where a stale value would be wrong, only read while it is held.",
      "schedules", "all interleavings of threads that call the writer, its readers, directories and caches",
      "a missing lock shows only in rare interleavings; tests run few threads and pass by luck",
      ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/SegmentReader.cpp",
       "src/core/index/ConcurrentMergeScheduler.cpp", "src/core/store/RAMDirectory.cpp", "src/core/search/FieldCacheImpl.cpp"],
      [("scoped object locks", "include/lucene++/Synchronize.h"), ("guard table", "SyncLock declarations throughout src/core")],
      "lockset (guarded-by) analysis: scoped locks of each function plus the locks every caller holds (greatest fixed point over the call graph) against a table of guarded fields",
      "a lock is named by class family or by field, the object identity is compared for `self` guards; the table (lpp/data/guards.txt) "
      "lists 140+ fields with their guard; atomicity across two separate critical sections is not judged", run09),
]
