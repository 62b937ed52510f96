"""C04: references to index files are taken and released in pairs."""
from ..reg import P
from ..db import db, name_of, AnalysisError
from ..elems import ElemSim
from ..sim import NUL, NOEXC, FALSE, TRUE, Sim
from ..sym import SymSim, flat
from ..trace import TraceSim, fn as fn_of

IFD = "IndexFileDeleter"
PEND = "IndexWriter::pendingCommit"
TXN = {"IndexWriter::startTransaction": "start", "IndexWriter::commitTransaction": "end", "IndexWriter::rollbackTransaction": "end"}


def has(v, x):
    return v == x or isinstance(v, tuple) and any(has(y, x) for y in v if isinstance(y, tuple))


# ---- the deleter itself -------------------------------------------------------------------------------------------------
class CountSim(ElemSim):
    """auto = (loop tokens, events): which references are taken and released, set by set"""
    cap = 300
    slicing = False
    SUMMARY = ("checkpoint", "deleteCommits", "refresh", "deletePendingFiles", "getRefCount", "deleteFile", "message", "deleteFiles", "deleteNewFiles")

    def __init__(self, root):
        super().__init__()
        self.root = root

    def may_throw(self, *a):
        return False

    def track(self, path, typ):
        return path[0] == "v" or path[0] == "f" and path[1] == ("this",)

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.cls == IFD and node[3] is not None and node[3][0] == "this" and fn.name not in self.SUMMARY

    def keep(self, c, v, fr):
        return True

    def owe(self, st, e):
        """constructor: every commit point found is kept and its files are referenced once"""
        toks, evs = st.auto
        toks = set(toks)
        owed = {t for t in toks if t[0] == "owe"}
        if e[0] == "newcp":
            if owed:
                toks.add(("fault", "a commit point is not kept with references to its files"))
            if ("deleted", 0) in toks:
                toks.add(("fault", "files are deleted before the files of every commit point are referenced"))
            toks = {t for t in toks if t[0] != "owe"}
            toks |= {("owe", norm(e[1]), "add")}
            if ("had", norm(e[1])) not in toks:
                toks.add(("owe", norm(e[1]), "inc"))
        elif e[0] == "inc" and e[1][:2] == ("u", "files") and e[1][3] == TRUE:
            w = ("owe", norm(e[1][2]), "inc")
            if w in toks:
                toks.discard(w)
            elif ("had", w[1]) in toks:
                toks.add(("fault", "the files of a commit point are referenced twice"))
            toks.add(("had", w[1]))
        elif e[0] in ("inc", "dec", "mixed"):
            toks.add(("fault", "files other than those of a commit point are referenced or released"))
        elif e[0] == "add" and e[1] == "commits":
            toks = {t for t in toks if not (t[0] == "owe" and t[2] == "add")}
        elif e[0] == "del":
            toks.add(("deleted", 0))
        elif e[0] in ("deleteCommits", "checkpoint"):
            if e[0] == "deleteCommits" and ("ckpt", 0) not in toks:
                toks.add(("fault", "commits are deleted before the incoming segments are referenced"))
            toks.add(("ckpt", 0) if e[0] == "checkpoint" else ("dc", 0))
        if owed and e[0] in ("del", "checkpoint", "policy") and {t for t in toks if t[0] == "owe"}:
            toks.add(("fault", "a commit point is not kept with references to its files"))
        return st.a((frozenset(toks), evs))

    def ev_(self, st, e):
        if self.root.kind == "ctor":
            own = e[1][2] if e[0] in ("inc", "dec") and e[1][:2] == ("u", "it") else None
            if own is None:
                return self.owe(st, e)
        toks, evs = st.auto
        if e[0] in ("inc", "dec"):
            v = e[1]
            if v[0] == "p" and v[1][0] == "v":
                v = self.val(v[1], st)
            if v[0] == "p" and v[1][0] == "u":
                v = v[1]
            e = (e[0], v)
            o = None
            if v[:2] == ("u", "it"):
                o = (v[2], e[0])
            elif v[0] == "f" and v[1][:2] == ("u", "it"):
                o = (v[1][2], e[0] + "." + v[2].split("::")[-1])
            elif v[0] == "p" and v[1][0] == "f" and v[1][1][:2] == ("u", "it"):
                o = (v[1][1][2], e[0] + "." + v[1][2].split("::")[-1])
            if o is not None:
                for t in toks:
                    if t[0] == "cur" and t[1] == o[0]:
                        n = t[2] if t[2] == "*" else tuple(sorted(t[2] + (o[1],)))[:3]
                        return st.a((toks - {t} | {("cur", o[0], n)}, evs))
        if len(evs) < 14:
            evs = evs + (e,)
        return st.a((toks, evs))

    def drop(self, st, C):
        toks, evs = st.auto
        return st.a((frozenset(t for t in toks if t[1] != C), evs))

    def on_begin(self, C, st, node, fr):
        return self.drop(st, C)

    def on_iter(self, C, st, node, fr):
        toks, evs = st.auto
        el = ("u", "it", C)
        prev = None; cur = None
        keep = set()
        for t in toks:
            if t[0] == "cur" and t[1] == C:
                cur = t[2]
            elif t[0] == "prev" and t[1] == C:
                prev = t[2]
            elif not has(t[1], el):
                keep.add(t)
        if cur is not None and cur != "*":
            prev = cur if prev in (None, cur) else ("mixed",)
        if prev is not None:
            keep.add(("prev", C, prev))
        keep.add(("cur", C, ()))
        return st.a((frozenset(keep), evs))

    def on_iter_end(self, C, st, node, fr):
        toks, evs = st.auto
        cur = prev = None
        for t in toks:
            if t[1] == C and t[0] == "cur":
                cur = t[2]
            if t[1] == C and t[0] == "prev":
                prev = t[2]
        st = self.drop(st, C)
        toks, evs = st.auto
        if cur is None and prev is None:
            toks = set(toks) | {("empty", C)}
            if self.root.kind == "ctor":
                toks = {t for t in toks if not (t[0] == "owe" and t[2] == "inc" and C[:2] == ("u", "files") and norm(C[2]) == t[1])}
                if C[:2] == ("u", "files"):
                    toks.add(("had", norm(C[2])))
            out = None
            for x in flat(C):
                if x[:2] == ("u", "it"):
                    out = x[2]; break
            if out is not None:
                toks = {t for t in toks if not (t[0] == "cur" and t[1] == out)} | {("cur", out, "*")}
            return st.a((frozenset(toks), evs))
        ops = cur if cur not in (None, "*") else prev
        if prev is not None and cur not in (None, "*") and prev != cur:
            ops = ("mixed",)
        for o in ops or ():
            st = self.ev_(st, (o, C))
        return st

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        if q == IFD + "::getRefCount" and vs:
            return [(("u", "rc", vs[0]), st)]
        if q in ("RefCount::IncRef", "RefCount::DecRef") and rp is not None:
            r = rp if rp[:2] == ("u", "rc") else self.rd(rp, st)
            return [(("u", "left", id(node)), self.ev_(st, ("inc" if m == "IncRef" else "dec", r[2] if r[:2] == ("u", "rc") else ("?",))))]
        if q == "SegmentInfos::files":
            return [(("u", "files", self.val(rp, st), vs[1]), st)]
        if c == IFD and rp == ("this",) and m in ("checkpoint", "deleteCommits", "refresh", "deletePendingFiles"):
            return [(("void",), self.ev_(st, (m,) + tuple(vs)))]
        if c == IFD and m == "deleteFile":
            toks, evs = st.auto
            return [(("void",), self.ev_(st, ("del",)) if self.root.kind == "ctor" else st)]
        if c.endswith("DeletionPolicy"):
            return [(("void",), self.ev_(st, ("policy",)))]
        if node[0] == "call" and c in ("Collection", "HashSet") and m in ("add", "clear") and node[3] is not None and node[3][0] == "field":
            return [(("void",), self.ev_(st, (m, node[3][3].split("::")[-1]) + tuple(vs)))]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def val(self, rp, st):
        if rp and rp[0] == "v":
            v = self.rd(rp, st)
            return v
        return ("p", rp) if rp and rp[0] != "u" else rp

    def ev(self, e, st, fr, xs):
        if e[0] == "field" and e[3].endswith("::infoStream"):
            return [(NUL, st)]          # messages have no effect on the counts
        if e[0] == "new" and e[2] == "CommitPoint":
            out = []
            for v, x in self.ev(e[3][-1], st, fr, xs):
                out.append((("nn", "cp", v), self.ev_(x, ("newcp", v))))
            return out
        if e[0] == "new" and e[2] == "SegmentInfos":
            v = ("nn", "sis", e[1])
            st = self.age(st, v)
            toks, evs = st.auto
            return [(v, st.a((frozenset(t for t in toks if not (t[0] in ("had", "empty") and has(t[1], v))), evs)))]
        return super().ev(e, st, fr, xs)


def empties(st):
    return {t[1] for t in st.auto[0] if t[0] == "empty"}


def deleter(res, d):
    def runs(f):
        sim = CountSim(f)
        o = sim.run(f, (frozenset(), ()))
        return [s for v, s in o.R]
    n = 0
    # single counts
    for name, op in (("IncRef", "+"), ("DecRef", "-")):
        f = fn_of(d, "RefCount::" + name)
        if f is None:
            raise AnalysisError("RefCount::%s not found" % name)
        ws = []
        for x in d.nodes(f):
            if x[0] == "un" and x[2] in ("pre++", "pre--", "post++", "post--") and x[3][0] == "field" and x[3][3] == "RefCount::count":
                ws.append((x[2][-1], 1))
            if x[0] == "asg" and x[3][0] == "field" and x[3][3] == "RefCount::count":
                k = x[4]
                if x[2] in ("+=", "-=") and k[0] == "int":
                    ws.append((x[2][0], k[2]))
                elif x[2] == "=" and k[0] == "bin" and k[2] in "+-" and k[4][0] == "int":
                    ws.append((k[2], k[4][2]))
                else:
                    ws.append(("?", 0))
        n += 1
        res.ob("RefCount::%s changes the count by one" % name)
        if ws != [(op, 1)]:
            res.bad("RefCount::%s/count" % name, "%s:%d RefCount::%s does not change the count by exactly one" % (f.file, f.line, name))
    # sets
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.cls != IFD or f.name not in ("incRef", "decRef") or f.body is None:
            continue
        op = f.name[:3]
        p0 = ("p", ("v", f.params[0][0], None))
        for s in runs(f):
            n += 1
            evs = [e for e in s.auto[1] if e[0] in ("inc", "dec", "mixed")]
            t = f.params[0][1]
            ok = len(evs) == 1 and evs[0][0] == op
            if not evs and empties(s):
                ok = True
            if ok and evs:
                x = repr(evs[0][1])
                ok = f.params[0][0] in x
                if "SegmentInfos" in t:
                    ok = ok and "'files'" in x and (len(f.params) < 2 or f.params[1][0] in x)
                    if f.name == "decRef":
                        ok = ok and "('k', 0)" in x
            if not ok:
                res.bad("%s/%s" % (f.qn, t.split("<")[0]), "%s:%d %s(%s) does not %s every file exactly once" % (f.file, f.line, f.qn, t, "reference" if op == "inc" else "release"))
                break
        res.ob("%s(%s) handles every file once" % (f.qn, f.params[0][1]))
    # checkpoint
    f = fn_of(d, IFD + "::checkpoint")
    if f is None:
        raise AnalysisError("IndexFileDeleter::checkpoint not found")

    def bad(key, what):
        res.bad("%s/%s" % (f.qn, key), "%s:%d %s %s" % (f.file, f.line, f.qn, what))
    for s in runs(f):
        n += 1
        evs = [e for e in s.auto[1] if e[0] in ("inc", "dec", "mixed", "add", "clear", "policy", "deleteCommits", "newcp")]
        em = empties(s)
        if any(e[0] == "mixed" for e in evs):
            bad("mixed", "handles the files of one set differently"); continue
        kinds = [e[0] for e in evs]
        commit = "newcp" in kinds
        incs = [e[1] for e in evs if e[0] == "inc"]
        if commit:
            if incs and not (len(incs) == 1 and "'files'" in repr(incs[0])) or not incs and not any("'files'" in repr(x) for x in em):
                bad("commit", "does not reference every file of the new commit point exactly once")
            if "dec" in kinds:
                bad("commit", "releases files although the commit point was only just registered")
            if [k for k in kinds if k in ("newcp", "policy", "deleteCommits")] != ["newcp", "policy", "deleteCommits"]:
                bad("commit", "does not register the commit point, tell the policy and remove the commits it deleted, in this order")
            if not any(e[0] == "add" and e[1] == "commits" for e in evs):
                bad("commit", "does not keep the commit point")
            if "inc" in kinds and kinds.index("inc") > kinds.index("policy"):
                bad("commit", "references the files of the commit after the policy deleted commits")
            continue
        first_dec = kinds.index("dec") if "dec" in kinds else None
        if first_dec is not None and "inc" in kinds[first_dec:]:
            bad("order", "releases the files of the last checkpoint before referencing the new ones")
        LF = "IndexFileDeleter::lastFiles"
        decs = [e[1] for e in evs if e[0] == "dec"]
        if decs and not (len(decs) == 1 and LF in repr(decs[0])) or not decs and not any(LF in repr(x) for x in em):
            bad("last", "does not release every file of the last checkpoint exactly once")
        lf = [e for e in evs if e[0] in ("add", "clear") and e[1] == "lastFiles"]
        if not lf or lf[0][0] != "clear" or any(e[0] == "clear" for e in lf[1:]):
            bad("remember", "does not forget the released files exactly once")
        z = lambda v: ("u", "files", v[2], FALSE) if v[:2] == ("u", "files") and v[3][0] == "p" else norm(v)
        saved = sorted([z(e[2]) for e in lf if e[0] == "add"], key=repr)
        have = sorted([z(x) for x in incs], key=repr)
        # an empty set needs no reference but may be remembered
        emn = {z(x) for x in em}
        if [x for x in saved if x not in emn] != have:
            bad("remember", "remembers other files for release than it referenced")
        if not any("'files'" in repr(x) for x in incs) and not any("'files'" in repr(x) for x in em):
            bad("new", "does not reference the files of the new segments")
    res.ob("checkpoint: new references before old releases, remembered for the next checkpoint")
    # close
    f = fn_of(d, IFD + "::close")
    for s in runs(f):
        n += 1
        evs = [e for e in s.auto[1] if e[0] in ("inc", "dec", "mixed", "add", "clear")]
        em = empties(s)
        decs = [e for e in evs if e[0] == "dec"]
        if any(e[0] in ("inc", "mixed") for e in evs) or decs and not (len(decs) == 1 and "lastFiles" in repr(decs[0])) or not decs and not any("lastFiles" in repr(x) for x in em):
            bad("close", "does not release every file of the last checkpoint exactly once")
        if ("clear", "lastFiles") not in evs:
            bad("close", "does not forget the files it released")
    res.ob("close releases the last checkpoint")
    # deleted commits
    f = fn_of(d, IFD + "::deleteCommits")
    for s in runs(f):
        n += 1
        evs = [e for e in s.auto[1] if e[0] in ("inc", "dec", "mixed", "dec.files", "inc.files", "clear")]
        k = [e for e in evs if e[0] in ("inc", "dec", "mixed", "dec.files", "inc.files")]
        if k and not (len(k) == 1 and k[0][0] in ("dec.files", "dec") and "commitsToDelete" in repr(k[0])):
            bad("commits", "does not release every file of each deleted commit exactly once")
        if k and ("clear", "commitsToDelete") not in evs:
            bad("commits", "does not forget the commits whose files it released")
        if not k and ("clear", "commitsToDelete") in evs and not any("commitsToDelete" in repr(x) for x in empties(s)):
            bad("commits", "forgets deleted commits without releasing their files")
    res.ob("deleteCommits releases every file of each deleted commit")
    # constructor
    f = [g for g in d.fns.values() if g.cls == IFD and g.kind == "ctor" and g.body is not None and len(g.params) > 1]
    if not f:
        raise AnalysisError("constructor of the file deleter not found")
    f = f[0]
    for s in runs(f):
        toks = s.auto[0]
        for t in toks:
            if t[0] == "fault":
                bad("init", t[1])
        if ("dc", 0) not in toks and ("ckpt", 0) in toks:
            bad("init", "never deletes the commits the policy gave up")
        if {t for t in toks if t[0] == "owe"}:
            bad("init", "a commit point is not kept with references to its files")
    res.ob("constructor: every commit point found is kept, its files referenced once")
    # commit points
    f = [g for g in d.fns.values() if g.cls == "CommitPoint" and g.kind == "ctor" and g.body is not None]
    if not f:
        raise AnalysisError("constructor of CommitPoint not found")
    f = f[0]
    fl = [x for x in d.nodes(f) if x[0] == "call" and name_of(x[2]) == "SegmentInfos::files"]
    res.ob("CommitPoint: holds all files of its segments and its segments file")
    if not fl or any(x[4][1][0] != "bool" or x[4][1][2] is not True for x in fl):
        bad("all", "does not take all files of the commit (segments file included)")
    for g in d.fns.values():
        if g.body is None or g.kind == "ctor":
            continue
        for x in d.nodes(g):
            w = x[3] if x[0] == "asg" else x[3] if x[0] == "call" and name_of(x[2]).split("::")[-1] in ("add", "remove", "clear", "addAll") else None
            if w is not None and w[0] == "field" and w[3] == "CommitPoint::files":
                res.bad("%s/files" % g.qn, "%s:%d %s changes the files of a registered commit point" % (g.file, x[1], g.qn))
    return n


def norm(v):
    return v[1] if v[0] == "p" else v


# ---- the writer ---------------------------------------------------------------------------------------------------------
class HoldSim(ElemSim):
    """tokens: held(v) a reference taken, pend released but not forgotten, an open transaction"""
    cap = 400
    slicing = True
    helpers = frozenset()

    def __init__(self):
        super().__init__()
        self.found = {}; self.seen = 0

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException") or typ[:2] == "P<" or typ.startswith("HashSet<")
        return path == ("f", ("this",), PEND)

    def call_relevant(self, n):
        return True

    def may_throw(self, node, targets, st, fr):
        if node[0] == "call":
            q = name_of(node[2])
            if q.startswith((IFD + "::", "HashSet::")) or q in ("SegmentInfos::files", "IndexWriter::finishMerges"):
                return False            # failures of the reference counting itself are not considered
        return Sim.may_throw(self, node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and fn.key in self.helpers and node[3] is not None and node[3][0] == "this"

    def keep(self, c, v, fr):
        return True

    def bad(self, fr, node, key, what):
        self.found.setdefault((fr.fn.qn, key, what), (fr.fn.file, node[1] if node else fr.fn.line))

    def arg(self, v, st):
        if v[0] == "p" and v[1] != ("f", ("this",), PEND):
            w = self.rd(v[1], st)
            return w if w[0] != "p" else w[1]
        return v[1] if v[0] == "p" else v

    PF = ("f", ("this",), PEND)

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key); c, _, m = q.rpartition("::")
        if c == IFD and m in ("incRef", "decRef") and vs:
            self.seen += 1
            v = self.arg(vs[0], st)
            a = set(st.auto)
            if m == "incRef":
                if ("held", v) in a:
                    self.bad(fr, node, "twice", "takes a second reference to the same files")
                a.add(("held", v))
            elif v == self.PF or st.env.get(self.PF) == v and ("held", v) not in a:
                if ("pend", "released") in a:
                    self.bad(fr, node, "pending", "releases the pending commit twice")
                a.add(("pend", "released"))
            elif ("held", v) in a:
                a.discard(("held", v))
                a.add(("gone", v))
            elif ("pend", "moved") in a:
                a.discard(("pend", "moved"))
            else:
                self.bad(fr, node, "unheld", "releases a reference that it does not hold")
            return [(("void",), st.a(frozenset(a)))]
        if c == IFD and m == "checkpoint" and vs and self.arg(vs[0], st) == self.PF:
            if ("pend", "released") in st.auto:
                self.bad(fr, node, "pending", "releases the pending commit before the commit is registered")
        if m == "files" and node[0] == "call" and q in ("SegmentInfo::files", "SegmentInfos::files"):
            r = ("nn", "files", rp, node[1])
            return [(r, self.age(st, r))]
        if q in TXN and q != fr.fn.qn and rp == ("this",):
            self.seen += 1
            a = set(st.auto)
            if TXN[q] == "start":
                if ("txn",) in a:
                    self.bad(fr, node, "nested", "starts a second transaction")
                xs.append((self.anyexc(node, key, fr), st))
                return [(("void",), st.a(frozenset(a | {("txn",)})))]
            if ("txn",) not in a:
                self.bad(fr, node, "ended", "ends a transaction that is not open")
            a.discard(("txn",))
            s2 = st.a(frozenset(a))
            xs.append((self.anyexc(node, key, fr), s2))
            return [(("void",), s2)]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def assign(self, path, val, st, node, fr, typ, isdecl=False):
        if path == self.PF:
            self.was_null = st.env.get(self.PF) == NUL or st.facts.get(self.PF) in (NUL, False)
        return super().assign(path, val, st, node, fr, typ, isdecl)

    def on_assign(self, path, val, st, node, fr):
        if path == self.PF:
            a = set(st.auto)
            if val == NUL:
                if ("pend", "released") not in a and not self.was_null:
                    a.add(("pend", "moved"))
                a.discard(("pend", "released"))
            else:
                v = self.arg(val, st)
                if ("held", v) not in a:
                    self.bad(fr, node, "handover", "makes a commit pending whose files are not referenced")
                a.discard(("held", v))
                a.discard(("pend", "released"))
            return st.a(frozenset(a))
        return st


def touches(d, f):
    for x in d.nodes(f):
        if x[0] == "call":
            q = name_of(x[2])
            if q in (IFD + "::incRef", IFD + "::decRef") or q in TXN:
                return True
        if x[0] == "asg" and x[3][0] == "field" and x[3][3] == PEND:
            return True
        if x[0] == "call" and x[3] is not None and x[3][0] == "field" and x[3][3] == PEND and name_of(x[2]).endswith("::reset"):
            return True
    return False


def judge(d, f, helpers):
    sim = HoldSim(); sim.helpers = helpers
    o = sim.run(f, frozenset())
    found = dict(sim.found)
    outs = [(s, False) for v, s in o.R] + [(s, True) for v, s in o.X]
    for s, exc in outs:
        how = "fails" if exc else "ends"
        for t in s.auto:
            if t[0] == "held":
                found.setdefault((f.qn, "held", "%s without releasing files it referenced" % how), (f.file, f.line))
            if t[0] == "txn":
                found.setdefault((f.qn, "txn", "%s with the transaction still open" % how), (f.file, f.line))
            if t == ("pend", "moved"):
                found.setdefault((f.qn, "forget", "%s having forgotten the pending commit without releasing its files" % how), (f.file, f.line))
            if t == ("pend", "released"):
                found.setdefault((f.qn, "dangling", "%s with a pending commit whose files are released" % how), (f.file, f.line))
    return sim, found


def writer(res, d):
    work = [f for f in d.fns.values() if f.body is not None and f.file.startswith("src/") and f.cls != IFD and f.qn not in TXN and f.kind not in ("ctor",) and touches(d, f)]
    helpers = set()
    done = set(); n = 0
    results = {}
    order = sorted(work, key=lambda f: f.key)
    i = 0
    while i < len(order):
        f = order[i]; i += 1
        if f.key in done:
            continue
        done.add(f.key)
        sim, found = judge(d, f, frozenset(helpers))
        if found and f.acc != "public":
            cs = [c for c in d.callers(f.key) if d.fns[c].cls == f.cls and d.fns[c].qn not in TXN]
            if cs and len(cs) <= 3:
                helpers.add(f.key)
                for c in cs:
                    done.discard(c); order.append(d.fns[c])
                continue
        results[f.key] = (f, sim, found)
    for k, (f, sim, found) in sorted(results.items()):
        n += 1
        res.ob("%s: references, hand-over and transactions balanced on every exit" % f.qn)
        for (q, key, what), (fi, l) in found.items():
            res.bad("%s/%s" % (q, key), "%s:%d %s %s" % (fi, l, q, what))
    return n


def transactions(res, d):
    SI = ("f", ("this",), "IndexWriter::segmentInfos")
    LR = ("f", ("this",), "IndexWriter::localRollbackSegmentInfos")

    def which(v, st, sim):
        w = v[1] if v[0] == "p" else v
        for p, n in ((SI, "segments"), (LR, "saved")):
            if w == p or st.env.get(p) == v:
                return n
        if w[0] == "v":
            x = st.env.get(w)
            if x is not None and x != v:
                return which(x, st, sim)
        return "?"

    def event(node, key, rp, vs, st, fr):
        q = name_of(key); c, _, m = q.rpartition("::")
        if c == IFD and m in ("incRef", "decRef", "checkpoint"):
            return "%s(%s)" % (m, which(vs[0], st, None))
        if q == "IndexWriter::checkpoint":
            return "checkpoint(segments)"
        if c.startswith("SegmentInfo") and m in ("clear", "addAll", "clone") and rp is not None:
            return "%s(%s%s)" % (m, which(rp, st, None), "," + which(vs[0], st, None) if m == "addAll" else "")
        return None

    def asg(path, val, st, node, fr):
        if path == LR:
            return "forget" if val == NUL else "save"
        return None
    spec = {"startTransaction": (["clone(segments)", "save", "incRef(segments)"], "save the segments and reference their files"),
            "commitTransaction": (["checkpoint(segments)", "decRef(saved)", "forget"], "register the new files, then release the saved ones"),
            "rollbackTransaction": (["clear(segments)", "addAll(segments,saved)", "checkpoint(segments)", "decRef(*)"], "restore the saved segments, register them and then release the transaction's reference")}
    n = 0
    for name, (want, what) in sorted(spec.items()):
        f = fn_of(d, "IndexWriter::" + name)
        if f is None:
            raise AnalysisError("IndexWriter::%s not found" % name)
        sim = TraceSim(event, assign_event=asg, nothrow=("IndexFileDeleter::incRef", "IndexFileDeleter::decRef", "IndexFileDeleter::checkpoint", "IndexFileDeleter::refresh"),
                       follow=lambda fn, node, fr: False if fn.qn in ("IndexWriter::checkpoint", "IndexWriter::finishMerges", "IndexWriter::doWait", "IndexWriter::message", "IndexWriter::ensureOpen") else None)
        o = sim.run(f, ())
        n += 1
        res.ob("%s: %s" % (f.qn, what))
        for v, s in o.R:
            ev = [e for e in s.auto if not e.endswith("!")]
            i = -1
            ok = True
            for w in want:
                hits = [k for k, e in enumerate(ev) if e == w or w == "decRef(*)" and e in ("decRef(segments)", "decRef(saved)")]
                if w == "decRef(*)" and hits:
                    k = hits[0]
                    if ev[k] == "decRef(saved)" and "forget" in ev[:k]:
                        ok = False
                if not hits or hits[0] < i and w not in ("save",):
                    ok = False; break
                i = max(i, hits[0])
            refs = [e for e in ev if e.startswith(("incRef", "decRef"))]
            if not ok or len(refs) != 1:
                res.bad("%s/sequence" % f.qn, "%s:%d %s does not always %s (exactly once): %s" % (f.file, f.line, f.qn, what, " ".join(ev)))
                break
    return n


def run04(res, tier):
    d = db()
    res.floor("transaction functions of the writer", transactions(res, d), 3)
    res.floor("paths of the reference counting of the deleter", deleter(res, d), 20)
    res.floor("functions that take, hand over or release references", writer(res, d), 5)


SIM = ["lpp/sim.py, lpp/sym.py, lpp/elems.py, lpp/trace.py (abstract interpreter)"]
PROPS = [P(
    "C04", "References to index files are taken and released in pairs",
    "Every reference the writer takes on index files - for a commit in progress, for a transaction that adds indexes, for files being packed into a compound file - is released exactly once however the operation ends, or handed over to the pending commit, whose files are released exactly once when it is finished or rolled back, and never before the commit point they belong to is registered. At a checkpoint the new files are referenced before those of the previous checkpoint are released, and exactly the files referenced are remembered for the next checkpoint or the closing of the file deleter. Every commit point found or made holds one reference on each of its files, its own segments file included, until the commit is deleted, when each is released once.",
    ["histories", "fault_sequences"], "every function that takes, releases or hands over references to index files, every path through it, with a failure at every call that can fail outside the counting itself",
    "A missing reference deletes files of a live commit, a surplus one keeps them for ever; both need particular sequences of commits, failures and merges to show.",
    ["src/core/index/IndexFileDeleter.cpp", "src/core/index/IndexWriter.cpp"],
    [("incRef, decRef, checkpoint, deleteCommits, close, constructor", "IndexFileDeleter.cpp"), ("startCommit, finishCommit, rollbackInternal, startTransaction, commitTransaction, rollbackTransaction, addIndexes", "IndexWriter.cpp")],
    "typestate of references over symbolic file sets; element-wise loop summaries for the file deleter; event order in the transaction functions",
    "Failures inside the reference counting (deleting a file never throws to it) and of finishing merges are not considered; a file set is identified by the value it was computed from.",
    run04, trusted=SIM)]
