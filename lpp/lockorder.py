"""Which lock (or other exclusion) may be taken while another is held, and whether that can form a circle.

Nodes are the locks of lpp.locks (class families and lock fields) plus the things threads wait for: `(indexing)` documents
being added, `(paused)` indexing held up for a flush, `(gate)` the read/write gate of addIndexes, `(merges)` merge threads.
An edge a -> b with the set of locks surely held there: a thread that holds a may wait for b."""
import collections, itertools
from .db import db, walk, is_node, name_of
from .locks import locks, Held

# classes whose methods programs replace (streams, directories, readers, queries): not followed
LEAF = set("IndexOutput IndexInput Directory TermDocs TermEnum InfoStream Analyzer TokenStream IndexReader Query Searchable "
           "Weight Scorer LuceneObject".split())
# function that waits -> (what it waits for, lock it gives up meanwhile)
WAITS = {"DocumentsWriter::pauseAllThreads": ("(indexing)", "DocumentsWriter"),
         "DocumentsWriter::waitReady": ("(paused)", "DocumentsWriter"),
         "IndexWriter::acquireRead": ("(gate)", "IndexWriter"), "IndexWriter::acquireWrite": ("(gate)", "IndexWriter"),
         "IndexWriter::upgradeReadToWrite": ("(gate)", "IndexWriter"),
         "ConcurrentMergeScheduler::sync": ("(merges)", "MergeScheduler"), "ConcurrentMergeScheduler::merge": ("(merges)", "MergeScheduler"),
         "IndexWriter::waitForMerges": ("(merges)", "IndexWriter"), "IndexWriter::finishMerges": ("(merges)", "IndexWriter"),
         "IndexWriter::optimize": ("(merges)", "IndexWriter"), "IndexWriter::expungeDeletes": ("(merges)", "IndexWriter"),
         "IndexWriter::resolveExternalSegments": ("(merges)", "IndexWriter")}
EXCLUDE = [("(indexing)", "(paused)")]      # never both at the same time


class Edge:
    __slots__ = ("a", "b", "fn", "line", "callee", "ctx")

    def __init__(self, a, b, fn, line, callee, ctx):
        self.a = a; self.b = b; self.fn = fn; self.line = line; self.callee = callee; self.ctx = ctx

    def __str__(self):
        return "%s:%d %s%s" % (self.fn.file, self.line, self.fn.qn, " -> " + self.callee if self.callee else "")


def leaf(d, key):
    c = name_of(key).rpartition("::")[0]
    if c not in d.classes:
        return False
    return bool((LEAF & ({c} | set(d.supers(c)))) - ({"LuceneObject"} if c != "LuceneObject" else set()))


def param_guards(f):
    """{id(node): indexes of boolean parameters that must be true for the node to run}"""
    ps = {p[0]: i for i, p in enumerate(f.params) if len(p) > 1 and p[1] == "bool"}
    out = {}
    if not ps:
        return out
    for n in db().nodes(f):
        if n[0] == "asg" and n[3][0] == "var":
            ps.pop(n[3][2], None)

    def conj(e):
        if e[0] == "bin" and e[2] == "&&":
            return conj(e[3]) | conj(e[4])
        return {ps[e[2]]} if e[0] == "var" and e[2] in ps else set()
    for n in db().nodes(f):
        if n[0] == "if" and is_node(n[2]) and is_node(n[3]):
            g = conj(n[2])
            if g:
                for m in walk(n[3]):
                    out.setdefault(id(m), set()).update(g)
    return out


def more(L, f, g):
    return {"IndexWriter"} if (f.qn, g.qn) in L.assume else set()


def false(e):
    return is_node(e) and e[0] in ("bool", "lit") and e[2] in (False, "false", 0)


class Order:
    def __init__(self):
        L = self.L = locks()
        d = self.d = db()
        self.callees = collections.defaultdict(list)
        rev = collections.defaultdict(list)
        guards = {}
        for callee, l in L.calls.items():
            for (f, held, rp, n) in l:
                if n[0] == "call" and leaf(d, n[2]):
                    continue
                if f.key not in guards:
                    guards[f.key] = param_guards(f)
                self.callees[f.key].append((callee, held, n))
                rev[callee].append((f.key, n, frozenset(guards[f.key].get(id(n), ())), frozenset(h.id for h in held)))
        # what a function may take: (node, lock given up meanwhile) -> sets of parameters that must be true
        A = self.A = collections.defaultdict(lambda: collections.defaultdict(set))
        for f, h, hh in L.sync:
            if h.id in (L.E.get(f.key) or ()) or any(x.id == h.id for x in hh):
                continue
            A[f.key][(h.id, None)].add((frozenset(), frozenset(x.id for x in hh)))
        for k, f in d.fns.items():
            if f.body is not None and f.qn in WAITS:
                A[k][WAITS[f.qn]].add((frozenset(), frozenset()))
        work = collections.deque(list(A))
        while work:
            k = work.popleft()
            for c, n, g, held_ids in rev.get(k, ()):
                if c not in d.fns:
                    continue
                ch = False
                for a, gs in list(A[k].items()):
                    for x, gained in gs:
                        if not self.feasible(n, x):
                            continue
                        cur = A[c][a]
                        new = (g, gained | held_ids)
                        if a[0] in held_ids or any(y[0] <= new[0] and y[1] <= new[1] for y in cur):
                            continue
                        A[c][a] = {y for y in cur if not (new[0] <= y[0] and new[1] <= y[1])} | {new}
                        ch = True
                if ch:
                    work.append(c)
        self.edges = collections.defaultdict(list)
        for f, h, hh in L.sync:
            ent = set(L.E.get(f.key) or ())
            ctx = {x.id for x in hh} | ent
            if h.id in ctx:
                continue
            for x in hh:
                self.edges[(x.id, h.id)].append(Edge(x.id, h.id, f, h.line, "", ctx))
        for k, l in self.callees.items():
            f = d.fns[k]
            for callee, held, n in l:
                ctx = {h.id for h in held} | set(L.E.get(k) or ())
                for (b, m), gs in (A[callee].items() if callee in A else ()):
                    if b in ctx:
                        continue
                    for x, gained in gs:
                        if not self.feasible(n, x):
                            continue
                        for a in {h.id for h in held}:
                            if a != m and a != b:
                                self.edges[(a, b)].append(Edge(a, b, f, n[1], callee.split("(")[0], ctx | gained | more(L, f, d.fns[callee])))

    def feasible(self, n, g):
        return n[0] != "call" or not any(i < len(n[4]) and false(n[4][i]) for i in g)

    def circles(self, accept=()):
        """circles of edges that no common lock serialises: [[Edge]]"""
        G = collections.defaultdict(set)
        for (a, b), l in self.edges.items():
            if (a, b) not in accept:
                G[a].add(b)
        out = []
        for scc in sccs(G):
            for cyc in cycles(G, scc):
                c = self.witness(cyc)
                if c:
                    out.append(c)
        return out

    def witness(self, cyc):
        pairs = list(zip(cyc, cyc[1:] + cyc[:1]))
        opts = []
        for p in pairs:
            best = []
            for e in sorted(self.edges[p], key=lambda e: len(e.ctx)):
                if not any(o.ctx <= e.ctx for o in best):
                    best.append(e)
            opts.append(best)
        if len(pairs) == 1:
            return None
        for ch in itertools.islice(itertools.product(*opts), 5000):
            common = set.intersection(*[e.ctx for e in ch])
            if common:
                continue
            if any(any(x in e.ctx for e in ch) and any(y in e.ctx for e in ch) for x, y in EXCLUDE):
                continue
            return list(ch)
        return None


def sccs(G):
    idx, low, st, on, out, c = {}, {}, [], set(), [], [0]
    nodes = set(G) | {b for s in G.values() for b in s}

    def go(v):
        work = [(v, iter(sorted(G.get(v, ()))))]
        idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(sorted(G.get(w, ()))))); break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    s = set()
                    while True:
                        w = st.pop(); on.discard(w); s.add(w)
                        if w == u:
                            break
                    if len(s) > 1:
                        out.append(s)
    for v in sorted(nodes):
        if v not in idx:
            go(v)
    return out


def cycles(G, scc, limit=4000, maxlen=5):
    """simple cycles of a strongly connected component, shortest representatives first"""
    ns = sorted(scc)
    n = 0
    for i, s in enumerate(ns):
        allowed = set(ns[i:])
        st = [(s, [s])]
        while st:
            v, p = st.pop()
            for w in sorted(G.get(v, ())):
                if w == s and len(p) > 1:
                    yield p
                    n += 1
                    if n > limit:
                        return
                elif w in allowed and w not in p and len(p) < maxlen:
                    st.append((w, p + [w]))
