"""C02: a failed commit or addIndexes is rolled back completely."""
from ..reg import P
from ..db import db, name_of
from ..elems import ElemSim
from ..sim import NUL, NOEXC
from ..trace import TraceSim, fn as fn_of

MUT = ("add", "remove", "clear", "addAll", "set", "put", "insert", "removeLast")


class StateSim(ElemSim):
    """what the fields hold at the end, in terms of what they held at the start"""

    def track(self, p, t):
        return p[0] in ("v", "f")

    def may_throw(self, *a):
        return False

    def on_iter(self, C, st, node, fr):
        return st.a(st.auto | {("it", C)})

    def on_call(self, node, key, rp, vs, st, fr, xs):
        m = name_of(key).rpartition("::")[2]
        if rp is not None and m in ("startCommit", "rollbackCommit", "reset") and not name_of(key).startswith("boost::"):
            return [(("void",), st.a(st.auto | {(m, rp) + tuple(vs)}))]
        if m == "clone" and rp is not None:
            return [(("u", "clone", ("p", rp)), st)]
        return super().on_call(node, key, rp, vs, st, fr, xs)


def this_field(p):
    return p[0] == "f" and (p[1] == ("this",) or p[1][0] == "f" and p[1][1][:1] == ("u",) or p[1][:2] == ("u", "it"))


def exits(f, c):
    sim = StateSim()
    return [s for v, s in sim.run(f, frozenset(), cls=c).R]


def save_restore(res, d):
    n = 0
    restored = {}
    for c in sorted(d.classes):
        a, b = fn_of(d, c + "::startCommit", 0), fn_of(d, c + "::rollbackCommit", 0)
        if a is None or b is None:
            continue
        n += 1
        ea, eb = exits(a, c), exits(b, c)
        iters = {t for s in ea + eb for t in s.auto if t[0] == "it"}
        saves = {}
        for s in ea:
            for p, v in s.env.items():
                if this_field(p):
                    saves.setdefault(p, set()).add(v)
        ok = set()
        alls = {}
        for s in eb:
            for p, v in s.env.items():
                if this_field(p):
                    alls.setdefault(p, set()).add(v)
        for p, vs in sorted(alls.items(), key=repr):
            el = [t for t in iters if repr(t[1]) in repr(p)]
            for s in eb:
                if all(t in s.auto for t in el) and p not in s.env:
                    vs.add(None)
            v = next(iter(vs)) if len(vs) == 1 else None
            good = False
            if v is not None and v[0] == "p":
                r = v[1]
                sv = set(saves.get(r, ()))
                for s in ea:
                    if all(t in s.auto for t in el) and r not in s.env:
                        sv.add(None)
                good = sv == {("p", p)}
            res.ob("%s puts back %s from what %s saved: %s" % (b.qn, p[2], a.qn, good))
            if good:
                ok.add(p[2])
            else:
                res.bad("%s/%s" % (b.qn, p[2]), "%s:%d %s puts into %s something other than what %s saved of it" % (b.file, b.line, b.qn, p[2], a.qn))
        # the segment description: reset(src) from a clone taken at the start
        rs = [{t for t in s.auto if t[0] == "reset"} for s in eb]
        for r in set.intersection(*rs) if rs else ():
            src = r[2][1] if len(r) > 2 and r[2][0] == "p" else None
            sv = {s.env.get(src) for s in ea}
            good = len(sv) == 1 and all(v is not None and "'clone', ('p', %r)" % (r[1],) in repr(v) for v in sv)
            res.ob("%s resets %s from a copy taken at the start: %s" % (b.qn, r[1][2] if r[1][0] == "f" else r[1], good))
            if good:
                ok.add(("object", "SegmentInfo"))
            else:
                res.bad("%s/reset" % b.qn, "%s:%d %s resets the segment description from something other than a copy taken by %s" % (b.file, b.line, b.qn, a.qn))
        # sub-readers
        for which, es, f in (("startCommit", ea, a), ("rollbackCommit", eb, b)):
            its = {t[1] for s in es for t in s.auto if t[0] == "it" and "subReaders" in repr(t[1])}
            if d.classes[c] and any("subReaders" in repr(x) for x in d.fields(c)):
                res.ob("%s reaches every sub-reader" % f.qn)
                if not its:
                    res.bad("%s/subs" % f.qn, "%s:%d %s does not visit the sub-readers" % (f.file, f.line, f.qn))
                for s in es:
                    for C in its:
                        if ("it", C) in s.auto and not any(t[0] == which and t[1][:2] == ("u", "it") for t in s.auto):
                            res.bad("%s/subs" % f.qn, "%s:%d %s does not call %s on every sub-reader" % (f.file, f.line, f.qn, which))
        restored[c] = ok
    res.floor("classes with commit state", n, 2)
    return restored


def written(res, d, restored):
    """everything the commit of a segment changes before it is complete is restored"""
    f = fn_of(d, "SegmentReader::commitChanges")
    if f is None:
        res.errors.append("analysis broken: SegmentReader::commitChanges not found"); return
    ok = restored.get("SegmentReader", set())
    reset = fn_of(d, "SegmentInfo::reset", 1)
    rf = {}
    es = exits(reset, "SegmentInfo") if reset else []
    for s in es:
        for p, v in s.env.items():
            if p[0] == "f" and p[1] == ("this",):
                rf.setdefault(p[2], []).append(v)
    mods = d.mod_fields()[f.key]
    for x in sorted(mods):
        c = x.split("::")[0]
        if c in ("SegmentReader", "Norm", "IndexReader"):
            if x in ("Norm::rollbackDirty",) or x.split("::")[1] in ("refCount",):
                continue
            res.ob("changed while a segment commits, restored when it fails: " + x)
            if x not in ok:
                res.bad("SegmentReader::rollbackCommit/missing " + x, "%s:%d committing a segment changes %s, which is not put back when the commit fails" % (f.file, f.line, x))
        if c == "SegmentInfo":
            res.ob("changed while a segment commits, restored with the segment description: " + x)
            vals = rf.get(x)
            good = vals and len(vals) == len(es) and ("object", "SegmentInfo") in ok and all(
                v[0] != "p" or v == ("p", ("f", ("v", reset.params[0][0], 0), x)) for v in vals)
            if not good:
                res.bad("SegmentInfo::reset/" + x, "%s:%d committing a segment changes %s, which SegmentInfo::reset does not put back" % (f.file, f.line, x))


def protocol(res, d, restored):
    """startCommit before the first change; a failure before the commit point reaches rollbackCommit"""
    n = 0
    for c in sorted(restored):
        f = fn_of(d, c + "::doCommit", 1)
        if f is None:
            res.errors.append("analysis broken: %s::doCommit not found" % c); continue
        mods = d.mod_fields()
        restf = {x for x in restored[c] if isinstance(x, str)}

        def event(node, key, rp, vs, st, fr):
            q = name_of(key); m = q.rpartition("::")[2]
            if rp == ("this",) and m in ("startCommit", "rollbackCommit"):
                return m
            if q == "SegmentInfos::commit" or q == c + "::commitChanges":
                return "point"
            if q in ("IndexReader::commit", "SegmentReader::commit") and rp != ("this",):
                return "sub"
            return None

        def asg(path, val, st, node, fr):
            if path[0] == "f" and path[1] == ("this",):
                return "set " + path[2]
            return None
        sim = TraceSim(event, assign_event=asg, nothrow=(c + "::startCommit", c + "::rollbackCommit"))
        o = sim.run(f, (), cls=c)
        for v, s in o.R:
            t = s.auto
            if not any(x in ("sub", "point") for x in t):
                continue
            n += 1
            res.ob("%s normal path: %s" % (f.qn, " ".join(t)))
            w = min(i for i, x in enumerate(t) if x in ("sub", "point") or x.startswith("set "))
            if "startCommit" not in t or len(t) - 1 - t[::-1].index("startCommit") > w:
                res.bad(f.qn + "/start", "%s:%d %s changes state before it has saved it: %s" % (f.file, f.line, f.qn, " ".join(t)))
            if "rollbackCommit" in t or any(x.endswith("!") for x in t) or "point" not in t:
                res.bad(f.qn + "/normal", "%s:%d %s returns normally although the commit failed: %s" % (f.file, f.line, f.qn, " ".join(t)))
        for e, s in o.X:
            t = s.auto
            if "startCommit" not in t:
                continue
            res.ob("%s failing path: %s" % (f.qn, " ".join(t)))
            if "point" in t:
                if "rollbackCommit" in t:
                    res.bad(f.qn + "/late", "%s:%d %s rolls back after the commit point has been written: %s" % (f.file, f.line, f.qn, " ".join(t)))
                continue
            if "rollbackCommit" not in t:
                res.bad(f.qn + "/norollback", "%s:%d %s fails without putting the state back: %s" % (f.file, f.line, f.qn, " ".join(t)))
                continue
            k = t.index("rollbackCommit")
            for i, x in enumerate(t):
                if x.startswith("set ") and (i > k or x[4:] not in restf):
                    res.bad(f.qn + "/" + x, "%s:%d %s changes %s on a failing path and does not put it back: %s" % (f.file, f.line, f.qn, x[4:], " ".join(t)))
    res.floor("normal commit paths", n, 2)


W = "IndexWriter::"
SI = ("f", ("this",), W + "segmentInfos")


def tx_event(node, key, rp, vs, st, fr, sim):
    q = name_of(key); c, _, m = q.rpartition("::")
    if q in (W + "startTransaction", W + "rollbackTransaction"):
        return m
    if q == W + "commitTransaction":
        return m + ("?" if sim.caught(st, fr) else "")
    if rp == SI and m in MUT:
        return "change"
    if c == "SegmentInfo" and m.startswith("set"):
        return "change"
    return None


def transactions(res, d):
    roots = [f for f in sorted(d.fns.values(), key=lambda f: f.key) if f.body is not None and f.cls == "IndexWriter" and f.qn != W + "startTransaction"
             and any(n[0] == "call" and name_of(n[2]) == W + "startTransaction" for n in d.nodes(f))]
    top = []
    for f in roots:
        cs = [d.fns[c] for c in d.callers(f.key) if d.fns[c].cls == "IndexWriter"] if f.acc != "public" else []
        top += cs or [f]
    n = 0
    for f in {x.key: x for x in top}.values():
        sim = TraceSim(None, nothrow=(W + "rollbackTransaction", W + "message", "ReaderPool::release", "DocumentsWriter::updateFlushedDocCount", "SegmentInfo::setUseCompoundFile", "IndexFileDeleter::decRef"))
        sim.event = lambda node, key, rp, vs, st, fr: tx_event(node, key, rp, vs, st, fr, sim)

        def caught(st, fr):
            return any(k[0] == "v" and st.env[k] != NOEXC and sim.is_holder(k) for k in st.env)
        sim.caught = caught
        hold = {x[2] for g in [f] + [t for nn in d.nodes(f) if nn[0] == "call" for t in d.targets(nn, "IndexWriter") if t.body is not None and t.cls == "IndexWriter"]
                for x in d.nodes(g) if x[0] == "decl" and x[3] == "LuceneException"}
        sim.is_holder = lambda k: k[1] in hold
        keys = {g.key for g in roots}

        def follow(fn, node, fr):
            if fn.qn in (W + "startTransaction", W + "commitTransaction", W + "rollbackTransaction"):
                return False
            return True if fn.key in keys else (fn.cls == "IndexWriter" and fn.acc != "public" and fn.key in helpers)
        helpers = {g.key for g in d.fns.values() if g.body is not None and g.cls == "IndexWriter" and any(
            nn[0] == "call" and name_of(nn[2]) in (W + "rollbackTransaction", W + "commitTransaction") for nn in d.nodes(g))}
        sim.follow = follow
        o = sim.run(f, (), cls="IndexWriter")
        for kind, es in (("returns", o.R), ("fails", o.X)):
            for v, s in es:
                t = s.auto
                if "startTransaction" not in t:
                    continue
                n += 1
                res.ob("%s %s: %s" % (f.qn, kind, " ".join(t)))

                def bad(w, what):
                    res.bad("%s/%s" % (f.qn, w), "%s:%d %s %s: %s" % (f.file, f.line, f.qn, what, " ".join(t)))
                opened = False; changed = False
                for x in t:
                    if x == "startTransaction":
                        if opened:
                            bad("nested", "starts a transaction inside another one")
                        opened = True; changed = False
                    elif x in ("change", "change!"):
                        changed = changed or opened
                    elif x in ("commitTransaction", "commitTransaction?", "rollbackTransaction") or x.startswith("commitTransaction"):
                        if not opened:
                            bad("unopened", "ends a transaction that is not open")
                        if "?" in x and changed:
                            bad("commit-failed", "keeps the changes of an operation that failed")
                        if x == "rollbackTransaction" and kind == "returns":
                            bad("rollback-normal", "returns normally although the changes were rolled back")
                        opened = False
                if opened:
                    bad("open", "leaves the transaction neither committed nor rolled back")
    res.floor("transaction paths", n, 6)


def restore_infos(res, d):
    """rollback puts the saved segment list back before files are cleaned up"""
    n = 0
    for qn, saved in ((W + "rollbackTransaction", "localRollbackSegmentInfos"), (W + "rollbackInternal", "rollbackSegmentInfos")):
        f = fn_of(d, qn, 0)
        if f is None:
            res.errors.append("analysis broken: %s not found" % qn); continue

        def event(node, key, rp, vs, st, fr):
            q = name_of(key); c, _, m = q.rpartition("::")
            if q == W + "finishMerges": return "finishMerges"
            if rp == SI and m == "clear": return "clear"
            if rp == SI and m == "addAll": return "restore" if vs and vs[0] == ("p", ("f", ("this",), W + saved)) else "addAll other"
            if rp == SI and m in MUT: return "change"
            if c == "IndexFileDeleter" and m in ("checkpoint", "refresh"): return m
            if q == "DocumentsWriter::abort": return "abort"
            if q == W + "closeInternal": return "close"
            if q == "SegmentInfos::rollbackCommit": return "dropPrepared"
            return None

        def asg(path, val, st, node, fr):
            if path == ("f", ("this",), W + saved):
                return "forget" if val == NUL else "overwrite"
            return None
        sim = TraceSim(event, assign_event=asg)
        o = sim.run(f, (), cls="IndexWriter")
        for v, s in o.R:
            t = s.auto
            n += 1
            res.ob("%s: %s" % (qn, " ".join(t)))
            want = ["finishMerges", "clear", "restore", "checkpoint", "refresh"]
            pos = [t.index(x) if x in t else -1 for x in want]
            if -1 in pos or pos != sorted(pos):
                res.bad(qn + "/order", "%s:%d %s does not end merges, restore the saved segments and then clean up files, in this order: %s" % (f.file, f.line, qn, " ".join(t)))
            elif any(x in ("change", "addAll other", "overwrite") for x in t) or "forget" in t and t.index("forget") < t.index("restore"):
                res.bad(qn + "/other", "%s:%d %s restores something other than the saved segments: %s" % (f.file, f.line, qn, " ".join(t)))
            if qn.endswith("Internal") and "abort" not in t:
                res.bad(qn + "/abort", "%s:%d %s keeps buffered documents" % (f.file, f.line, qn))
    res.floor("rollback paths", n, 2)
    # what rollback goes back to
    m = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.qn == W + "setRollbackSegmentInfos" or not any(nn[0] == "call" and name_of(nn[2]) == W + "setRollbackSegmentInfos" for nn in d.nodes(f)):
            continue

        def event(node, key, rp, vs, st, fr):
            q = name_of(key)
            if q == "SegmentInfos::finishCommit": return "committed"
            if q == W + "setRollbackSegmentInfos": return "remember"
            if q in ("SegmentInfos::read",): return "read"
            return None
        sim = TraceSim(event)
        o = sim.run(f, (), cls="IndexWriter")
        for v, s in o.R + [(None, s) for e, s in o.X]:
            t = s.auto
            if "remember" in t:
                m += 1
                res.ob("%s: %s" % (f.qn, " ".join(t)))
                if f.qn.endswith("finishCommit") and ("committed" not in t or t.index("committed") > t.index("remember")):
                    res.bad(f.qn + "/remember", "%s:%d %s makes segments the rollback state before they are committed: %s" % (f.file, f.line, f.qn, " ".join(t)))
    res.floor("rollback state updates", m, 2)


def run02(res, tier):
    d = db()
    r = save_restore(res, d)
    written(res, d, r)
    protocol(res, d, r)
    transactions(res, d)
    restore_infos(res, d)


SIM = ["lpp/sim.py, lpp/sym.py, lpp/elems.py, lpp/trace.py (abstract interpreter)"]
PROPS = [P(
    "C02", "A failed commit or addIndexes is rolled back completely",
    "When committing the deletions and norm changes of a reader fails at any point before its commit point is complete, every pending-change flag, pending counter and segment description it had changed is put back in every sub-reader, so the changes are still pending and a later commit writes them. When adding other indexes to a writer fails after it began changing the segment list, the list is put back and the failure is reported; when it succeeds it is not rolled back, and no path leaves the transaction open. Rolling back a writer puts back exactly the segments of its last successful commit, after merges have ended and before files are cleaned up.",
    ["fault_sequences", "histories"], "every path through reader commit, addIndexes and rollback with a failure at every call that can fail; every field written while a segment commits",
    "The wrong state is only seen by the next commit after a failure at one particular call; tests inject random faults and rarely retry.",
    ["src/core/index/SegmentReader.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentInfo.cpp", "src/core/index/IndexWriter.cpp"],
    [("startCommit/rollbackCommit, doCommit, commitChanges", "SegmentReader.cpp, DirectoryReader.cpp"), ("SegmentInfo::reset", "SegmentInfo.cpp"), ("startTransaction/commitTransaction/rollbackTransaction, rollbackInternal, setRollbackSegmentInfos", "IndexWriter.cpp")],
    "symbolic save/restore matching against the transitive write set of the commit, and path-sensitive transaction typestate with exceptional edges",
    "The set of fields that must be restored is computed from the code (transitive assignments), not listed. Assumes that dropping file references, releasing pooled readers and rolling back do not themselves fail.",
    run02, trusted=SIM)]
