"""C03, C04: index files are deleted only when nothing refers to them, and references are paired."""
from ..reg import P
from ..db import db, name_of
from ..elems import ElemSim
from ..sim import NUL, NOEXC, FALSE, TRUE
from ..trace import TraceSim, fn as fn_of

IFD = "IndexFileDeleter"


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)
    return v


class DelSim(ElemSim):
    """every file deleted by the deleter is known to be unreferenced on the path that deletes it"""
    cap = 300
    slicing = False

    def __init__(self):
        super().__init__()
        self.dels = 0; self.found = {}

    def track(self, path, typ):
        return path[0] == "v"

    def arith(self, op, a, b, e, fr):
        return a if a[:2] == ("u", "it") else ("u", "int", id(e))

    def may_throw(self, *a):
        return False

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.cls == IFD and node[3] is not None and node[3][0] == "this" and fn.name not in ("getRefCount", "deleteFile", "message")

    def zero(self, v):
        return ("zero", v)

    def on_iter(self, C, st, node, fr):
        el = ("u", "it", C)
        return st.a(frozenset(t for t in st.auto if el not in flat(t)))

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        if q == IFD + "::getRefCount" and vs:
            return [(("u", "rc", vs[0]), st)]
        if q == "RefCount::DecRef" and rp is not None:
            r = rp if rp[:2] == ("u", "rc") else self.rd(rp, st)
            if r[:2] == ("u", "rc"):
                st = st.a(st.auto - {self.zero(r[2])})
                return [(("u", "left", r[2]), st)]
            return [(("u", "left", None), st)]
        if q == "RefCount::IncRef" and rp is not None:
            r = rp if rp[:2] == ("u", "rc") else self.rd(rp, st)
            if r[:2] == ("u", "rc"):
                st = st.a(st.auto - {self.zero(r[2])})
            return [(("u", "cnt"), st)]
        if rp == ("f", ("this",), IFD + "::refCounts"):
            if m == "contains" and vs:
                return [(("u", "has", vs[0], id(node)), st)]
            if m == "find" and vs:
                return [(("u", "it", ("found", vs[0])), st)]
            if m == "end":
                return [(("u", "end", rp), st)]
        if q in (IFD + "::deleteFile",) and vs:
            self.dels += 1
            v = vs[0]
            ok = ("zero", v) in st.auto or v[:2] == ("u", "it") and IFD + "::deletable" in repr(v[2]) or \
                v[:1] == ("p",) and ("zero", v[1]) in st.auto
            if not ok:
                self.found[(fr.fn.qn, node[1])] = (fr.fn.file, v)
            return [(("void",), st)]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def on_branch(self, c, v, t, f, fr):
        if v[0] == "u" and len(v) == 4 and v[1] == "has":
            f = [x.a(x.auto | {self.zero(v[2])}) for x in f]
        return t, f

    def compare(self, c, a, b, st, fr):
        if c[2] == "==":
            for u, w in ((a, b), (b, a)):
                if w == ("k", 0) and u[:2] == ("u", "left") and u[2] is not None:
                    return [st.a(st.auto | {self.zero(u[2])})], [st]
                if w == ("k", 0) and u[0] == "p" and u[1][0] == "f" and u[1][2] == "RefCount::count":
                    r = self.rd(u[1][1], st) if u[1][1][0] != "u" else u[1][1]
                    if r[:2] == ("u", "rc"):
                        return [st.a(st.auto | {self.zero(r[2])})], [st]
                    b0 = u[1][1]
                    if b0[0] == "f" and b0[2] == "std::pair::second":
                        k = ("f", b0[1], "std::pair::first")
                        return [st.a(st.auto | {self.zero(k), self.zero(("p", k))})], [st]
                if w[:2] == ("u", "end") and u[:2] == ("u", "it") and isinstance(u[2], tuple) and u[2][:1] == ("found",):
                    return [st.a(st.auto | {self.zero(u[2][1])})], [st]
        if c[2] in ("<", "<=", ">", ">="):
            for u in (a, b):
                if u[:2] == ("u", "left") and u[2] is not None:
                    z = st.a(st.auto | {self.zero(u[2])})
                    k = b if u is a else a
                    op = c[2]
                    # left > 0 / 0 < left / left < 1 / left <= 0
                    if u is a and (op, k) in ((">", ("k", 0)), (">=", ("k", 1))) or u is b and (op, k) in (("<", ("k", 0)), ("<=", ("k", 1))):
                        return [st], [z]
                    if u is a and (op, k) in (("<", ("k", 1)), ("<=", ("k", 0))) or u is b and (op, k) in ((">", ("k", 1)), (">=", ("k", 0))):
                        return [z], [st]
        return super().compare(c, a, b, st, fr)


def flat(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)


def deleter_deletes(res, d):
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.cls != IFD or f.body is None or f.name in ("deleteFile", "deleteFiles"):
            continue
        if f.acc != "public" and [c for c in d.callers(f.key) if d.fns[c].cls == IFD]:
            continue
        if not any(x[0] == "call" for x in d.nodes(f)):
            continue
        sim = DelSim()
        sim.run(f, frozenset())
        if sim.dels:
            n += 1
            res.ob("%s: every file it deletes is unreferenced on the path (%d deletions seen)" % (f.qn, sim.dels))
        for (q, l), (fi, v) in sim.found.items():
            res.bad("%s/unguarded" % q, "%s:%d %s deletes a file without knowing that nothing refers to it" % (fi, l, q))
    res.floor("deleting operations of the file deleter", n, 5)


# ---- deletions elsewhere ------------------------------------------------------------------------------------------------
def creating(d):
    """functions that (transitively) create index files"""
    r = getattr(d, "_creating", None)
    if r is None:
        def base(f):
            if f.body is None:
                return False
            return any(x[0] == "call" and name_of(x[2]).endswith("::createOutput") for x in d.nodes(f))
        g, rev = d.callgraph()
        r = {f.key for f in d.fns.values() if base(f)}
        work = list(r)
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if c not in r:
                    r.add(c); work.append(c)
        d._creating = r
    return r


def is_dir(d, c):
    return c in d.classes and d.isa(c, "Directory")


PROTOCOL = {"SegmentInfos::rollbackCommit": "the commit point of the prepared commit that is being rolled back (C01)",
            "SegmentInfos::finishCommit": "the commit point that could not be finished (C01)",
            "SegmentInfos::write": "the commit point that could not be written (C01)"}


class OwnSim(ElemSim):
    """a deletion outside the file deleter removes a file the same operation created, and the operation then fails"""
    cap = 300

    def __init__(self):
        super().__init__()
        self.seen = {}

    def track(self, path, typ):
        return path[0] == "v"

    def call_relevant(self, n):
        return True

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.key in self.helpers and (node[3] is None or fn.cls is not None and fr.fn.cls is not None and node[3][0] == "this" and
            self.db.isa(fr.cls or fr.fn.cls, fn.cls))

    helpers = frozenset()

    def keep(self, c, v, fr):
        return True

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        d = self.db
        if m in ("deleteFile", "deleteFiles") and (is_dir(d, c) or c == IFD) and vs:
            names = {t[1] for t in st.auto if t[0] == "made"}
            v = vs[0]
            own = any(x in names for x in flat(v) if isinstance(x, tuple) and x and x[0] not in ("k",))
            self.seen[(fr.fn.qn, node[1])] = self.seen.get((fr.fn.qn, node[1]), True) and own
            self.where = fr.fn.file
            xs.append((("any",), st.a(st.auto | {("gone", fr.fn.qn, node[1])})))
            return [(("void",), st.a(st.auto | {("gone", fr.fn.qn, node[1])}))]
        if m == "handleMergeException" and len(vs) == 2:
            # it ignores only the exception of an aborted merge
            mp = vs[1][1] if vs[1][0] == "p" else vs[1]
            return [(("exc", ("any",)), st), (NOEXC, st.a(st.auto | {("aborted", mp)}))]
        if m == "isAborted" and rp is not None:
            return [(TRUE if ("aborted", rp) in st.auto else ("u", "aborted?", rp), st)]
        if node[0] == "call" and vs and any(t.key in creating(d) for t in d.targets(node, None)):
            args = frozenset(("made", x) for v in vs for x in ([v] + ([("p", v)] if v[0] != "p" else [v[1]])) if x[0] not in ("k", "nul", "void"))
            st = st.a(st.auto | args)
            r = self.opaque(node, key, rp, vs, st, fr, xs, d.targets(node, None)) if not any(self.inline(t, node, st, fr) for t in d.targets(node, None)) else None
            return r
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def on_branch(self, c, v, t, f, fr):
        if v[:2] == ("u", "aborted?"):       # a merge that was aborted stays aborted
            t = [x.a(x.auto | {("aborted", v[2])}) for x in t]
        return t, f

    def ev(self, e, st, fr, xs):
        if e[0] == "new" and e[3]:
            ks = [t.key for t in self.db.ctors_run(e)] + [m.key for m in self.db.fns.values() if m.cls == e[2]]
            if any(k in creating(self.db) for k in ks):
                for a in e[3]:
                    for v, _ in self.ev(a, st, fr, []):
                        if v[0] not in ("k", "nul", "void"):
                            st = st.a(st.auto | {("made", v)})
        return super().ev(e, st, fr, xs)


def own_deletes(res, d):
    n = 0
    sites = {}
    for f in d.fns.values():
        if f.body is None or f.cls == IFD or not f.file.startswith("src/") or (f.cls and is_dir(d, f.cls)):
            continue
        for x in d.nodes(f):
            if x[0] == "call":
                c, _, m = name_of(x[2]).rpartition("::")
                if m in ("deleteFile", "deleteFiles") and (is_dir(d, c) or c == IFD):
                    sites.setdefault(f.key, []).append(x)
    helpers = set()
    roots = []
    for k in sorted(sites):
        f = d.fns[k]
        if f.qn in PROTOCOL:
            n += len(sites[k])
            res.ob("%s deletes %s" % (f.qn, PROTOCOL[f.qn]))
            continue
        cs = [c for c in d.callers(k) if (d.fns[c].cls == f.cls if f.cls else d.fns[c].file == f.file)] if f.acc != "public" and f.kind != "ctor" else []
        # a helper that does not create the file itself is judged in its callers
        if cs and not any(x[0] in ("call", "new") and any(t.key in creating(d) for t in (d.targets(x, None) if x[0] == "call" else d.ctors_run(x))) for x in d.nodes(f)):
            helpers.add(k); roots += cs
        else:
            roots.append(k)
    for k in sorted(set(roots)):
        f = d.fns[k]
        sim = OwnSim(); sim.helpers = frozenset(helpers)
        o = sim.run(f, frozenset())
        for (q, l), own in sorted(sim.seen.items()):
            n += 1
            res.ob("%s:%d deletes only a file of its own that failed" % (q, l))
            if not own:
                res.bad("%s/foreign" % q, "%s:%d %s deletes a file that it did not create in this operation" % (sim.where, l, q))
        for v, s in o.R:
            for t in s.auto:
                if t[0] == "gone" and v != FALSE:       # false or 0: the operation reports that it was given up
                    res.bad("%s/success" % t[1], "%s:%d %s can end successfully after deleting the file it wrote" % (f.file, t[2], t[1]))
    res.floor("deletions outside the file deleter", n, 8)


def run03(res, tier):
    d = db()
    deleter_deletes(res, d)
    own_deletes(res, d)


SIM = ["lpp/sim.py, lpp/sym.py, lpp/elems.py, lpp/trace.py (abstract interpreter)"]
PROPS = [P(
    "C03", "An index file is deleted only when nothing refers to it",
    "The file deleter removes a file only when, on the path that removes it, the number of references to the file has just become zero, the file is not known to it at all, or an earlier removal of the same unreferenced file has to be retried. Everything else in the library removes an index file directly only when the same operation was creating that file and then fails or is given up; such an operation never ends successfully after removing its own file.",
    ["histories", "fault_sequences"], "every call that deletes a file, every path to it, with a failure at every call that can fail",
    "A file deleted too early is noticed only when an older commit or an open reader needs it; the tests keep few commits alive and fail few operations.",
    ["src/core/index/IndexFileDeleter.cpp", "src/core/index/IndexWriter.cpp", "src/core/index/SegmentReader.cpp", "src/core/index/FieldsWriter.cpp"],
    [("decRef, refresh, deleteNewFiles, deletePendingFiles, constructor", "IndexFileDeleter.cpp"), ("direct deletions", "IndexWriter.cpp, SegmentReader.cpp, FieldsWriter.cpp, SegmentInfos.cpp")],
    "path-sensitive guard analysis with symbolic reference counts; provenance of every directly deleted file name",
    "Decides the guard of each deletion, not that the counts themselves are right (C04). A merge that was aborted is taken to stay aborted; the merge error handler is taken to ignore only abortion.",
    run03, trusted=SIM)]
