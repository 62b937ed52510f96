"""Search-side rules: iterator positions, document numbering of collectors and of composite readers."""
from ..reg import P
from ..db import db, name_of, walk, strip_type, AnalysisError
from ..sym import SymSim, isint, slice_vars
from ..elems import ElemSim
from ..sim import Frame, St, dup_atoms
from ..equality import root

NOMORE = ("k", 2147483647)


class IterSim(SymSim):
    """values returned by nextDoc/advance against the position docID() then reports"""
    symbolic = False
    cap = 60
    widen = 4

    def __init__(self, cls):
        super().__init__()
        self.fields = set()
        todo = ["docID()"]
        done = set()
        while todo:
            sig = todo.pop()
            f = self.db.method(cls, sig)
            if f is None or f.body is None or f.key in done:
                continue
            done.add(f.key)
            for x in walk(f.body):
                if x[0] == "field":
                    self.fields.add(x[3])
                if x[0] == "call" and x[3] is not None and x[3][0] == "this":
                    c = name_of(x[2]).rpartition("::")[0]
                    todo.append(x[2][len(c) + 2:])
        # locals that flow into the position or into a result
        self.rel = set()
        fns = [f for k in [cls] + self.db.supers(cls) for f in self.db.fns.values() if f.cls == k and f.body is not None]
        n = -1
        while n != len(self.rel):
            n = len(self.rel)
            for f in fns:
                for x in walk(f.body):
                    src = None
                    if x[0] == "decl" and x[2] in self.rel:
                        src = x[4]
                    elif x[0] == "asg" and (x[3][0] == "var" and x[3][2] in self.rel or x[3][0] == "field" and x[3][3] in self.fields):
                        src = x[4]
                    elif x[0] == "ret" and isint(f.ret):
                        src = x[2]
                    elif x[0] == "call" and x[3] is not None and x[3][0] == "var" and name_of(x[2]).split("::")[-1] in ("nextDoc", "advance", "docID", "doc"):
                        src = x[3]
                    if src is not None:
                        for y in walk(src):
                            if y[0] == "var":
                                self.rel.add(y[2])

    def inline(self, fn, node, st, fr):
        if not super().inline(fn, node, st, fr):
            return False
        return isint(fn.ret) or bool(self._mod.get(fn.key, set()) & self.fields)

    def track(self, path, typ):
        if path[0] == "v":
            return path[1] in self.rel
        return path[0] == "f" and (path[2] in self.fields or path[2] == "#doc")

    def on_call(self, node, key, rp, vs, st, fr, xs):
        n = name_of(key).split("::")[-1]
        if rp is None or rp == fr.this and node[3][0] == "this":
            return None
        c = strip_type(node[6]) if len(node) > 6 and node[6] else name_of(key).rpartition("::")[0]
        if not (self.db.isa(c, "DocIdSetIterator") or self.db.isa(c, "Spans")):
            return None
        if n in ("nextDoc", "advance"):
            v = self.site(node, fr)
            st = self.age(st, v)
            return [(v, st.w(("f", rp, "#doc"), v))]
        if n in ("docID", "doc"):
            return [(self.rd(("f", rp, "#doc"), st), st)]
        return None

    def pos(self, cls, st):
        f = self.db.method(cls, "docID()")
        if f is None or f.body is None:
            return None
        fr = Frame(f, ("this",), cls, 0, (f.key,), {}, dup_atoms(f))
        o = self.ex(f.body, st, fr)
        return o.R


def run_c24(res, tier):
    d = db()
    done = 0
    for c in sorted(d.subs("DocIdSetIterator")):
        cl = d.classes[c]
        if c == "BucketScorer":      # hands scores to a collector, is never iterated
            continue
        for nm, sig in (("nextDoc", "nextDoc()"), ("advance", "advance(int)")):
            f = d.method(c, sig)
            if f is None or f.body is None or f.cls == "DocIdSetIterator":
                continue
            g = d.method(c, "docID()")
            if g is None or g.body is None:
                continue
            if f.cls != c and g.cls != c:
                # helpers overridden in c are followed through the class
                if not any(m[1] not in ("<ctor>", "<dtor>") for m in cl.methods):
                    continue
            s = IterSim(c)
            res.ob("%s::%s on an object of class %s" % (f.cls, sig, c))
            s.steps_cap = 4000
            try:
                o = s.run(f, cls=c)
            except AnalysisError:
                res.count("methods left undecided: position read through a rebuilt list")
                continue
            done += 1
            for v, st in o.R:
                st2 = St({k: x for k, x in st.env.items() if k[0] != "v"}, st.facts, (), None)
                for w, x in s.pos(c, st2):
                    if s.eq(v, w, x):
                        continue
                    res.bad("%s::%s@%s" % (f.cls, nm, c), "%s %s returns %s while docID() then reports %s" % (f.where(), f.qn, v, w))
    res.floor("iterator methods", done, 45)




# ---- document numbers -----------------------------------------------------------------------------------------------
def plus(v):
    """the addends of a sum"""
    if v[0] == "op" and v[1] == "+":
        return plus(v[2]) + plus(v[3])
    return [v]


def isdoc_type(d, c):
    return d.isa(c, "ScoreDoc")


class DocSim(SymSim):
    """collectors: which document number goes where"""
    cap = 60
    widen = 3

    def __init__(self, doc=None):
        super().__init__()
        self.docv = doc
        self.ev_store = []     # (pos, value, state)
        self.ev_calls = []     # (pos, qn, receiver, args, state)

    only = None

    def track(self, path, typ):
        if path[0] == "v":
            return (isint(typ) or typ[:2] in ("P<", "W<")) and (self.only is None or path[1] in self.only)
        return path[0] == "f" and typ in ("int", "int32_t") and path[1] == ("this",)

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr)

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] == "ScoreDoc::doc":
            self.ev_store.append((node[1], fr.fn, val))
        return st

    def on_new(self, e, vs, st, fr, xs):
        if e[2] in self.db.classes and self.db.isa(e[2], "ScoreDoc"):
            i = {"FieldValueHitQueueEntry": 1}.get(e[2], 0)
            if len(vs) > i:
                self.ev_store.append((e[1], fr.fn, vs[i]))
        return None

    def compare(self, c, a, b, st, fr):
        for x, y in ((a, b), (b, a)):
            if x[0] == "p" and x[1][0] == "f" and x[1][2] == "ScoreDoc::doc" and any(t == self.docv for t in plus(y)):
                self.ev_store.append((c[1], fr.fn, y))
        return super().compare(c, a, b, st, fr)

    def pre_call(self, node, key, rp, vs, st, fr):
        self.ev_calls.append((node[1], fr.fn, name_of(key), rp, vs, st))
        return st


def root_field(rp):
    """the field of this that holds the called object (or the collection it is an element of)"""
    while rp is not None and rp[0] in ("p", "i", "u", "f"):
        if rp[0] == "f" and rp[1] == ("this",):
            return rp[2]
        rp = rp[2] if rp[0] == "u" and len(rp) > 2 and rp[1] == "it" else rp[1] if rp[0] in ("p", "i", "f") else None
        if not isinstance(rp, tuple):
            return None
    return None


class ForwardSim(ElemSim):
    """auto: (fields all of whose objects were told about the next reader, mark of the collection being visited)"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def track(self, path, typ):
        return path[0] == "v" or path[0] == "f" and is_cont_type(typ)

    def on_begin(self, C, st, node, fr):
        return st.a((st.auto[0], None)) if root_field(C) in self.inner else st

    def on_iter(self, C, st, node, fr):
        x = root_field(C)
        if x not in self.inner:
            return st
        return st.a((st.auto[0], (x, "skipped" if st.auto[1] and st.auto[1][1] != "told" else "pending")))

    def on_iter_end(self, C, st, node, fr):
        x = root_field(C)
        if x not in self.inner:
            return st
        if st.auto[1] is None or st.auto[1] == (x, "told"):
            return st.a((st.auto[0] | {x}, None))
        return st.a((st.auto[0], (x, "skipped")))

    def pre_call(self, node, key, rp, vs, st, fr):
        if name_of(key).endswith("::setNextReader"):
            x = root_field(rp)
            if x in self.inner:
                if rp[0] == "f" and rp[1] == ("this",):
                    return st.a((st.auto[0] | {x}, st.auto[1]))
                if st.auto[1] == (x, "pending"):
                    return st.a((st.auto[0], (x, "told")))
        return st


def is_cont_type(t):
    return t.startswith(("Collection<", "HashSet<"))


RELATIVE = {"compareBottom": 0, "copy": 1, "collect": 0}


def told(d, cls):
    """what setNextReader of a collector stores and passes on"""
    f = d.method(cls, "setNextReader(P<IndexReader>,int)")
    if f is None or f.body is None:
        return None
    s = DocSim()
    o = s.run(f, cls=cls)
    basev = ("p", ("v", f.params[1][0], 0))
    stored = None
    for v, st in o.R:
        b = {p[2] for p, x in st.env.items() if p[0] == "f" and p[1] == ("this",) and x == basev}
        stored = b if stored is None else stored & b
    return f, basev, stored or set(), s, o


def run_c25(res, tier):
    d = db()
    n = 0
    for c in sorted(d.subs("Collector")):
        f = d.method(c, "collect(int)")
        if f is None or f.body is None or d.classes[c].abstract and f.cls != c:
            continue
        t = told(d, c)
        if t is None:
            continue
        g, basev, stored, gs, go = t
        n += 1
        res.ob("%s: %s with %s" % (c, f.qn, g.qn))
        doc = ("p", ("v", f.params[0][0], 0))
        s = DocSim(doc)
        s.run(f, cls=c)
        bases = [("p", ("f", ("this",), b)) for b in stored]
        for line, fn, v in s.ev_store:
            a = plus(v)
            if not any(mention(x, doc) for x in a):
                continue
            if sorted(a, key=repr) not in [sorted([doc, b], key=repr) for b in bases]:
                res.bad("%s@%s" % (fn.qn, c), "%s:%d (%s) on a %s: a document number is kept or compared with a kept one without having the segment's base (stored by %s) added exactly once: %s" %
                        (fn.file, line, fn.qn, c, g.qn, v))
        for line, fn, qn, rp, vs, st in s.ev_calls:
            i = RELATIVE.get(qn.split("::")[-1])
            if i is not None and qn.rpartition("::")[0] in d.classes and (d.isa(qn.rpartition("::")[0], "FieldComparator") or d.isa(qn.rpartition("::")[0], "Collector")) and i < len(vs):
                if vs[i] != doc and mention(vs[i], doc):
                    res.bad("%s@%s/%s" % (fn.qn, c, qn), "%s:%d (%s) on a %s passes %s, not the segment's document number, to %s" % (fn.file, line, fn.qn, c, vs[i], qn))
        # the base is passed on to every collector/comparator held
        for line, fn, qn, rp, vs, st in gs.ev_calls:
            if qn.endswith("::setNextReader") and len(vs) == 2:
                a = plus(vs[1])
                if basev not in a or a.count(basev) != 1 or any(mention(x, basev) for x in a if x != basev):
                    res.bad("%s/next" % fn.qn, "%s:%d (%s) passes %s instead of the document base" % (fn.file, line, fn.qn, vs[1]))
                r = ("p", ("v", g.params[0][0], 0))
                if vs[0] != r:
                    res.bad("%s/reader" % fn.qn, "%s:%d (%s) passes on another reader" % (fn.file, line, fn.qn))
        held = [(fq, ty) for k in [c] + d.supers(c) for fq, ty, a, b in d.fields(k) if ty in ("P<Collector>", "P<FieldComparator>", "A<P<FieldComparator>>", "Collection<P<FieldComparator>>")
                or (ty.startswith(("P<", "C<")) and strip_type(ty.split("<", 1)[1].rstrip(">")) in ("Collector", "FieldComparator"))]
        if held:
            need = any(qn.split("::")[-1] in RELATIVE for _, _, qn, _, _, _ in s.ev_calls)
            inner = {root_field(rp) for _, _, qn, rp, _, _ in s.ev_calls if qn.split("::")[-1] in RELATIVE} & {x for x, _ in held}
            fs = ForwardSim(inner)
            fo = fs.run(g, auto=(frozenset(), None), cls=c)
            for v, st in fo.R if need else ():
                miss = sorted(x for x in inner if x not in st.auto[0])
                res.ob("%s: %s tells every inner comparator or collector" % (c, g.qn))
                if miss or not inner and not any(qn.endswith("::setNextReader") for _, _, qn, _, _, _ in gs.ev_calls):
                    res.bad("%s/forward" % c, "%s does not tell its comparator or collector (%s) about the next reader on every path" % (g.where(), ", ".join(miss)))
                    break
        if any(mention(v, doc) for _, _, v in s.ev_store) and not bases:
            res.bad("%s/base" % c, "%s does not keep the document base on every path" % g.where())
    res.floor("collectors", n, 18)
    # comparators that compare document numbers
    m = 0
    for c in sorted(d.subs("FieldComparator")):
        f = d.method(c, "copy(int,int)")
        g = d.method(c, "setNextReader(P<IndexReader>,int)")
        if f is None or g is None or f.body is None or g.body is None:
            continue
        t = told(d, c)
        if any(n_.endswith("docBase") for n_ in [x[0].split("::")[-1] for x in d.fields(c)]) or t[2]:
            for f in (f, d.method(c, "compareBottom(int)")):
                m += 1
                res.ob()
                doc = ("p", ("v", f.params[-1][0], 0))
                s = ValueSim(doc)
                o = s.run(f, cls=c)
                vals = s.vals + [v for v, st in o.R]
                ok = [sorted([doc, ("p", ("f", ("this",), b))], key=repr) for b in t[2]]
                hit = [p for v in vals for p in sums(v) if any(mention(x, doc) for x in p)]
                if not hit:
                    res.bad("%s/unused" % f.qn, "%s ignores the document" % f.where())
                for p in hit:
                    if sorted(p, key=repr) not in ok:
                        res.bad(f.qn, "%s %s uses a segment-relative document number as a sort value" % (f.where(), f.qn))
    res.floor("document comparators", m, 2)
    drivers(res, d)
    # searchers over several indexes: the start of each, and the sums the bases come from
    tmp = type(res)(res.pid)
    bulk(tmp, d)
    start_tables(tmp, d)
    for k, t in tmp.viol:
        if k.endswith("/start") or k.endswith("/sum"):
            res.bad(k, t)


def drivers(res, d):
    """loops that hand a collector each segment and its base"""
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or f.name == "setNextReader":
            continue
        if not any(x[2].split("(")[0].endswith("::setNextReader") for x in d.calls(f) if x[0] == "call"):
            continue
        s = DocSim(None)
        seeds = [a for x in d.calls(f) if x[0] == "call" and name_of(x[2]).split("::")[-1] in ("setNextReader", "scorer") for a in x[4]]
        s.only = slice_vars([f], seeds)
        s.run(f)
        res.ob("driver " + f.qn)
        told_ = {}
        for line, fn, qn, rp, vs, st in s.ev_calls:
            if qn.endswith("::setNextReader"):
                r, b = vs[0], vs[1]
                if b[0] == "k" or r[0] == "p" and r[1][0] == "i" and b[0] == "p" and b[1][0] == "i" and r[1][2] != b[1][2]:
                    res.bad(f.qn + "/pair", "%s:%d (%s) pairs a segment reader with a base of another segment: %s / %s" % (fn.file, line, fn.qn, r, b))
                told_[r] = 1
            elif qn.endswith("::scorer") and vs and vs[0] not in told_:
                res.bad(f.qn + "/scorer", "%s:%d (%s) scores a reader that the collector was not told about: %s" % (fn.file, line, fn.qn, vs[0]))
    res.count("setNextReader drivers")


def mention(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mention(y, x) for y in v if isinstance(y, tuple))


def sums(v):
    """maximal sums inside a value"""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "op" and v[1] == "+":
        yield plus(v)
        return
    if v[0] == "op":
        for x in v[2:]:
            yield from sums(x)
        return
    yield [v]


class ValueSim(DocSim):
    """every value assigned"""

    def __init__(self, doc):
        super().__init__(doc)
        self.vals = []

    def on_assign(self, path, val, st, node, fr):
        if path[0] != "v":
            self.vals.append(val)
        return st


# ---- composite numbering --------------------------------------------------------------------------------------------
# the document-number argument of the operations that address one document of a reader or searcher
DOCARG = {"document": 0, "isDeleted": 0, "deleteDocument": 0, "doDelete": 0, "setNorm": 0, "doSetNorm": 0, "doc": 0,
          "getTermFreqVectors": 0, "getTermFreqVector": 0, "explain": 1}
LOOKUP = ("readerIndex", "subSearcher", "subIndex")


class PartSim(SymSim):
    """calls a composite makes on its parts"""
    cap = 60
    widen = 3

    def __init__(self, docp):
        super().__init__()
        self.docp = docp
        self.calls = []
        self.lookups = {}
        self.bulk = []; self.made = {}; self.infos = []; self.ords = []

    def track(self, path, typ):
        return path[0] == "v" and (isint(typ) or typ[:2] in ("P<", "W<"))

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr) and fn.name not in LOOKUP

    def result(self, e, key, rp, vs, st, fr):
        v = self.site(e, fr)
        n = name_of(key).split("::")[-1]
        if n in LOOKUP:
            self.lookups[v] = vs[0]
        return v

    def pre_call(self, node, key, rp, vs, st, fr):
        n = name_of(key).split("::")[-1]
        if n in DOCARG and rp is not None and len(vs) > DOCARG[n]:
            self.calls.append((node[1], fr.fn, n, rp, vs))
        if n in ("norms", "search") and rp is not None and len(vs) == 3 or n == "arrayCopy":
            self.bulk.append((node[1], fr.fn, n, rp, vs, node))
        return st

    def on_new(self, e, vs, st, fr, xs):
        if e[2] in self.db.classes and self.db.isa(e[2], "Collector"):
            v = ("u", "made", e[2], vs)
            self.made[v] = (e, vs)
            return [(v, st)]
        if e[2] == "SegmentMergeInfo":
            self.infos.append((e[1], fr.fn, vs))
            return [(("u", "info", vs[0], vs[2] if len(vs) > 2 else None), st)]
        return None

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] == "SegmentMergeInfo::ord":
            o = path[1]
            if o[0] in ("v", "f") and o in st.env:
                o = st.env[o]
            self.ords.append((node[1], fr.fn, o, val))
        return st


def parts(d, c):
    """(collection of parts, collection of start offsets) of a composite class"""
    fs = [x for k in [c] + d.supers(c) for x in d.fields(k)]
    p = [x[0] for x in fs if x[1].startswith("Collection<P<") and (d.isa(x[1][13:-2], "IndexReader") or d.isa(x[1][13:-2], "Searchable"))]
    s = [x[0] for x in fs if x[1] == "Collection<int>" and x[0].lower().endswith("starts")]
    return p, s


def start_tables(res, d):
    """start offsets: each part starts where the sum of the sizes of the earlier parts ends"""
    m = 0
    for c in sorted(d.classes):
        p, s = parts(d, c)
        own = [x for x in s if x.startswith(c + "::")]
        if not p or not own or not (d.isa(c, "IndexReader") or d.isa(c, "Searchable")):
            continue
        for f in sorted((f for f in d.fns.values() if f.cls == c and f.body is not None), key=lambda f: f.key):
            if not any(x[0] == "asg" and x[3][0] == "idx" and any(y[0] == "field" and y[3] in own for y in walk(x[3])) for x in walk(f.body)):
                continue
            m += 1
            res.ob("start offsets built in " + f.qn)
            sm = StartSim(own, p)
            sm.run(f, cls=c)
            if not sm.grown:
                res.bad(f.qn + "/sum", "%s %s does not accumulate the sizes of the parts" % (f.where(), f.qn))
            for w in sm.wrong:
                res.bad(f.qn + "/start", "%s:%d (%s): %s" % (f.file, w[0], f.qn, w[1]))
    return m


def run_c16(res, tier):
    d = db()
    n = 0
    for c in sorted(d.classes):
        p, s = parts(d, c)
        if not p or not s or not (d.isa(c, "IndexReader") or d.isa(c, "Searchable")):
            continue
        for f in sorted((f for f in d.fns.values() if f.cls == c and f.name in DOCARG and f.body is not None), key=lambda f: f.key):
            i = DOCARG[f.name]
            if len(f.params) <= i or not isint(f.params[i][1]):
                continue
            doc = ("p", ("v", f.params[i][0], 0))
            sm = PartSim(doc)
            sm.run(f)
            for line, fn, name, rp, vs in sm.calls:
                a = vs[DOCARG[name]]
                # the part: receiver, or first argument (weight->explain(part, doc))
                part = None
                if rp[0] == "i":
                    part = rp
                elif name == "explain" and vs[0][0] == "p" and vs[0][1][0] == "i":
                    part = vs[0][1]
                if part is None or not (part[1][0] == "f" and part[1][2] in p):
                    continue
                n += 1
                res.ob("%s -> %s of a part" % (f.qn, name))
                want = [("op", "-", doc, ("p", ("i", ("f", ("this",), x), part[2]))) for x in s]
                if a not in want:
                    res.bad("%s/%s" % (f.qn, name), "%s:%d (%s): document number passed to a part is not number minus the start of that same part: %s on %s" % (fn.file, line, fn.qn, a, part))
                if sm.lookups.get(part[2]) != doc:
                    res.bad("%s/part" % f.qn, "%s:%d (%s): the part is not the one found for this document number" % (fn.file, line, fn.qn))
    res.floor("per-document operations of composites", n, 18)
    lookups(res, d)
    bulk(res, d)
    drivers(res, d)
    m = start_tables(res, d)
    res.floor("start tables", m, 4)
    # postings of a composite
    for c in [x for x in sorted(d.subs("TermDocs")) if any(y[1] == "Collection<int>" and y[0].endswith("starts") for y in d.fields(x))]:
        run_multidocs(res, d, c)
        bulk_read(res, d, c)
    # merged results of several searchers
    k = 0
    for c in sorted(d.classes):
        fs = {x[0]: x[1] for x in d.fields(c)}
        st = [x for x in fs if fs[x] == "Collection<int>" and x.endswith("starts")]
        if st and any(t == "P<Searchable>" for t in fs.values()):
            f = d.method(c, "call()")
            if f is None:
                continue
            k += 1
            res.ob("hits of one searcher renumbered in " + f.qn)
            s = HitSim()
            s.run(f)
            idx = [x for x in fs if fs[x] == "int"]
            if any("Sort" in t_ for t_ in fs.values()):
                ks = KeySim(None)
                ks.run(f)
                res.ob("document-number keys of one searcher's hits renumbered in " + f.qn)
                if not ks.n:
                    res.bad(f.qn + "/keys", "%s merges no sorted hits" % f.where())
                for w in sorted(ks.bad):
                    res.bad(f.qn + "/key", "%s %s: %s" % (f.where(), f.qn, w))
            want = [("p", ("i", ("f", ("this",), st[0]), ("p", ("f", ("this",), x)))) for x in idx]
            for line, qn, ok in s.adds:
                if not ok:
                    res.bad(f.qn + "/hit", "%s:%d (%s) a hit enters the merged queue without the start of its searcher added exactly once" % (f.file, line, f.qn))
            if not s.adds:
                res.bad(f.qn + "/none", "%s merges no hits" % f.where())
            for v in s.stores:
                if sorted(plus(v), key=repr)[0] and not any(w in plus(v) for w in want):
                    res.bad(f.qn + "/store", "%s %s stores a hit number without the start of its searcher: %s" % (f.where(), f.qn, v))
    res.floor("merging tasks", k, 2)
    for f in d.fns.values():
        for x in (d.calls(f) if f.body else ()):
            if x[0] == "new" and x[2].startswith("MultiSearcherCallable"):
                sm = NewSim()
                sm.only = slice_vars([f], x[3])
                sm.run(f)
                for line, vs in sm.news:
                    res.ob()
                    el = [v for v in vs if v[0] == "p" and v[1][0] == "i" and v[1][1][0] == "f" and v[1][1][2].endswith("searchables")]
                    if el and not any(v == el[0][1][2] for v in vs):
                        res.bad(f.qn + "/task", "%s:%d (%s) gives a task the start of another searcher" % (f.file, line, f.qn))


class NewSim(DocSim):
    def __init__(self):
        super().__init__()
        self.news = []

    def on_new(self, e, vs, st, fr, xs):
        if e[2].startswith("MultiSearcherCallable"):
            self.news.append((e[1], vs))
        return None


class StartSim(SymSim):
    """start table against the running sum"""
    cap = 40
    widen = 3

    def __init__(self, own, p):
        super().__init__()
        self.own = own; self.p = p; self.grown = 0; self.wrong = []; self.sizes = {}

    def track(self, path, typ):
        if path[0] == "i":
            return path[1][0] == "f" and path[1][2] in self.own
        return path[0] in ("v", "f") and (isint(typ) or typ[:2] in ("P<", "W<")) and (path[0] == "v" or path[1] == ("this",))

    def result(self, e, key, rp, vs, st, fr):
        v = self.site(e, fr)
        if name_of(key).endswith("::maxDoc"):
            self.sizes[v] = rp
        return v

    def asg(self, e, st, fr, xs):
        # sum += size(part)
        if e[2] in ("+=", "=") and e[3][0] in ("var", "field"):
            for p, _ in self.evpath(e[3], st, fr, []):
                before = self.rd(p, st)
                r = super().asg(e, st, fr, xs)
                for v, x in r:
                    a = plus(v) if v[0] == "op" else []
                    sz = [y for y in a if y in self.sizes]
                    if sz and len(a) > 1:
                        self.grown = 1
                        part = self.sizes[sz[0]]
                        if part is not None and part[0] == "i" and part[1][0] == "f" and part[1][2] in self.p:
                            w = [st.env.get(("i", ("f", ("this",), o), part[2])) for o in self.own]
                            if before not in w:
                                self.wrong.append((e[1], "the start of a part is not the sum of the sizes of the parts before it"))
                return r
        return super().asg(e, st, fr, xs)


class HitSim(DocSim):
    """renumbering of hits"""

    def __init__(self):
        super().__init__()
        self.adds = []; self.stores = []

    def track(self, path, typ):
        return path[0] == "v" and (isint(typ) or typ[:2] in ("P<", "W<"))

    def assign(self, path, val, st, node, fr, typ, isdecl=False):
        if path[0] == "f" and path[2] == "ScoreDoc::doc":
            self.stores.append(val)
        return super().assign(path, val, st, node, fr, typ, isdecl)

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2] == "ScoreDoc::doc":
            n = dict(st.auto or ()).get(path[1], 0)
            return st.a(tuple(sorted({**dict(st.auto or ()), path[1]: min(n + 1, 2)}.items(), key=repr)))
        if path[0] == "v" and node[0] == "decl":
            return st.a(tuple(x for x in (st.auto or ()) if not mention(x[0], path) and val != ("p", x[0]) and val != x[0]))
        return st

    def pre_call(self, node, key, rp, vs, st, fr):
        n = name_of(key).split("::")[-1]
        if n in ("addOverflow", "add", "insertWithOverflow") and vs:
            v = vs[0][1] if vs[0][0] == "p" else vs[0]
            self.adds.append((node[1], n, dict(st.auto or ()).get(v, 0) == 1))
        return st


class KeySim(ElemSim):
    """document-number sort keys of one searcher's hits; auto: stage"""
    cap = 100

    def __init__(self, want):
        super().__init__()
        self.bad = {}; self.want = want; self.n = 0
        self.doc = self.gval(["gvar", 0, "SortField::DOC", "int"], St({}, {}, (), None))

    def track(self, path, typ):
        return path[0] == "v" and (isint(typ) or typ[:2] in ("P<", "W<", "Co"))

    def keep(self, c, v, fr):
        return False

    def may_throw(self, node, targets, st, fr):
        return False

    def kind(self, C):
        return "field" if "fields" in C[-1:] or str(C[-1]).endswith("TopFieldDocs::fields") else "hit" if str(C[-1]).endswith("TopDocs::scoreDocs") else None

    def no(self, st, why):
        self.bad[why] = 1
        return st.a("merge")

    def compare(self, c, a, b, st, fr):
        if c[2] == "<" and b[:2] == ("u", "size") and self.kind(b[2]) and a[0] == "k" and a != ("k", 0) and not any(t == ("loop", b[2]) for t in (st.facts.get("loops") or ())) and st.auto != "merge":
            st = self.no(st, "not every %s is looked at" % ("sort field" if self.kind(b[2]) == "field" else "hit"))
        for x, y in ((a, b), (b, a)):
            if x[:2] == ("u", "type") and c[2] == "==" and st.auto == "field" and y == self.doc:
                return [st.a("doc")], [st.a("not")]
        return super().compare(c, a, b, st, fr)

    def on_iter(self, C, st, node, fr):
        k = self.kind(C)
        if k == "field" and st.auto != "merge":
            if st.auto in ("field", "doc"):
                return self.no(st, "a document-number sort field is passed over")
            return st.a("field")
        if k == "hit":
            if st.auto == "hit":
                return self.no(st, "a hit's document-number key keeps the searcher's own number")
            if st.auto in ("doc", "stored"):
                return st.a("hit")
        return st

    def on_iter_end(self, C, st, node, fr):
        k = self.kind(C)
        if k == "field" and st.auto != "merge":
            if st.auto in ("field", "doc"):
                return self.no(st, "a document-number sort field is passed over")
            return st.a("end")
        if k == "hit":
            if st.auto == "hit":
                return self.no(st, "a hit's document-number key keeps the searcher's own number")
            if st.auto in ("doc", "stored"):
                return st.a("fin")
        return st

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key)
        if q == "SortField::getType":
            return [(("u", "type", rp), st)]
        if q.endswith("::setFields"):
            self.n += 1
            if st.auto in (None, "field", "doc", "hit"):
                st = self.no(st, "hits are merged before their document-number keys were looked at")
            return [(("void",), st.a("merge"))]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def asg(self, e, st, fr, xs):
        if e[3][0] == "idx" and any(y[0] == "field" and y[3] == "FieldDoc::fields" for y in walk(e[3])):
            st = self.no(st, "a hit's document-number key is moved twice") if st.auto == "stored" else st.a("stored") if st.auto == "hit" else st
            if not any(y[0] == "idx" and y[2][0] == "field" and y[2][3].endswith("starts") for y in walk(e[4])):
                self.bad["a document-number key is stored without its searcher's start"] = 1
        return super().asg(e, st, fr, xs)


class MultiDocsSim(SymSim):
    cap = 60
    widen = 3

    def __init__(self):
        super().__init__()
        self.calls = []; self.pairs = []; self.elems = []

    def track(self, path, typ):
        return path[0] in ("v", "f") and (isint(typ) or typ[:2] in ("P<", "W<"))

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr) and fn.name != "termDocs"

    def havoc(self, e, ts, st, fr):
        return st

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[2].endswith("::current") and self.src and val in self.src:
            b = st.env.get(("f", ("this",), path[2].rpartition("::")[0] + "::base"))
            self.pairs.append((node[1], fr.fn, b, self.src[val]))
        return st

    src = None

    def result(self, e, key, rp, vs, st, fr):
        v = self.site(e, fr)
        if name_of(key).endswith("::termDocs") and vs:
            self.src = self.src or {}
            self.src[v] = vs[0]
        return v

    def pre_call(self, node, key, rp, vs, st, fr):
        self.calls.append((node[1], name_of(key), rp, vs, st))
        return st


READ = "read(Collection<int>&,Collection<int>&)"


class ReadSim(SymSim):
    """numbers read in bulk from a part"""
    cap = 60
    widen = 3

    def __init__(self, docs):
        super().__init__()
        self.docs = docs; self.got = set(); self.wrong = []; self.base = None

    def track(self, path, typ):
        return path[0] in ("v", "f") and (isint(typ) or typ[:2] in ("P<", "W<"))

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr) and fn.name not in ("termDocs", "read")

    def result(self, e, key, rp, vs, st, fr):
        v = self.site(e, fr)
        if name_of(key).endswith("::read") and len(vs) == 2:
            self.got.add(v)
        return v

    def pre_call(self, node, key, rp, vs, st, fr):
        if name_of(key).endswith("::read") and len(vs) == 2:
            st = st.a((frozenset(), None))
        return st

    def asg(self, e, st, fr, xs):
        if e[3][0] == "idx" and self.db is not None:
            for p, x in self.evpath(e[3], st, fr, []):
                if p and p[0] == "i" and p[1] == self.docs:
                    for v, y in self.ev(e[4], x, fr, []):
                        a = sorted(plus(v), key=repr)
                        b = self.rd(("f", ("this",), self.base), y)
                        want = [b] if e[2] == "+=" else sorted([("p", p), b], key=repr)
                        if a != want:
                            self.wrong.append((e[1], fr.fn, v))
                    w, n = st.auto or (frozenset(), None)
                    return [(e and v, x.a((w | {p[2]}, n)))] if False else [(r, z.a((w | {p[2]}, n))) for r, z in super().asg(e, st, fr, xs)]
        return super().asg(e, st, fr, xs)

    def compare(self, c, a, b, st, fr):
        t, f = super().compare(c, a, b, st, fr)
        if c[2] == "<" and b in self.got:
            w, n = st.auto or (frozenset(), None)
            f = [x.a((w, a)) for x in f]
        return t, f


def bulk_read(res, d, c):
    f = d.method(c, READ)
    if f is None or f.body is None:
        return
    s = ReadSim(("v", f.params[0][0], 0))
    s.base = c + "::base"
    o = s.run(f, cls=c, env={("f", ("this",), x[0]): ("u", "init", x[0]) for x in d.fields(c) if isint(x[1])})
    res.ob("%s: every number read from a part is moved by the part's base" % f.qn)
    for line, fn, v in s.wrong:
        res.bad(f.qn + "/base", "%s:%d (%s) moves a number read from a part by something else than that part's base: %s" % (f.file, line, fn.qn, v))
    n = 0
    for v, st in o.R:
        if v not in s.got:
            continue
        n += 1
        w, k = st.auto or (frozenset(), None)
        if any(mention(x, v) for x in w):
            continue
        if k is None or k[0] == "k" and w != frozenset(("k", i) for i in range(k[1])) or k[0] == "op":
            res.bad(f.qn + "/all", "%s %s returns numbers read from a part that were not all moved by the part's base" % (f.where(), f.qn))
    if not n:
        res.bad(f.qn + "/none", "%s %s returns no result of a part" % (f.where(), f.qn))


class LookSim(SymSim):
    """search for the part that holds a number"""

    def track(self, path, typ):
        return path[0] == "v"

    def result(self, e, key, rp, vs, st, fr):
        n = name_of(key).split("::")[-1]
        if n in ("begin", "end", "cbegin", "cend", "size") and rp is not None:
            return ("u", n.lstrip("c"), rp)
        if n in ("upper_bound", "lower_bound"):
            self.found.append((e[1], n, tuple(vs[:3])))
            return ("u", n, tuple(vs[:3]))
        if n == "distance":
            return ("op", "-", vs[1], vs[0])
        return self.site(e, fr)

    def inline(self, fn, node, st, fr):
        return False


def lookups(res, d):
    """a number belongs to the last part that starts at or before it"""
    n = 0
    for f in sorted((f for f in d.fns.values() if f.name in LOOKUP + ("subDoc",) and f.body is not None), key=lambda f: f.key):
        s = LookSim(); s.found = []
        o = s.run(f)
        if f.name == "subDoc":
            doc = ("p", ("v", f.params[0][0], 0))
            sm = PartSim(doc)
            o = sm.run(f)
            n += 1
            res.ob("number within the part: " + f.qn)
            for v, st in o.R:
                ok = v[0] == "op" and v[1] == "-" and v[2] == doc and v[3][0] == "p" and v[3][1][0] == "i" and sm.lookups.get(v[3][1][2]) == doc
                if not ok:
                    res.bad(f.qn + "/sub", "%s %s is not the number minus the start of the part that holds it" % (f.where(), f.qn))
            continue
        if not s.found:
            continue
        n += 1
        res.ob("part of a number: " + f.qn)
        doc = ("p", ("v", f.params[0][0], 0))
        for line, k, (lo, hi, x) in s.found:
            coll = lo[2] if lo[:2] == ("u", "begin") else None
            whole = hi == ("u", "end", coll) or hi[0] == "op" and hi[1] == "+" and lo in hi[2:] and all(x == lo or x[0] in ("p", "u") for x in hi[2:])
            want = doc if k == "upper_bound" else ("op", "+", doc, ("k", 1))
            if coll is None or not whole:
                res.bad(f.qn + "/range", "%s:%d (%s) does not search all parts" % (f.file, line, f.qn))
            if x != want:
                res.bad(f.qn + "/bound", "%s:%d (%s) does not look for the last part starting at or before the number" % (f.file, line, f.qn))
        for v, st in o.R:
            ok = v[0] == "op" and v[1] == "-" and v[3] == ("k", 1) and v[2][0] == "op" and v[2][1] == "-" and v[2][2][:2] in (("u", "upper_bound"), ("u", "lower_bound")) and v[2][3] == v[2][2][2][0]
            if not ok:
                res.bad(f.qn + "/last", "%s %s returns something else than the last part starting at or before the number" % (f.where(), f.qn))
    res.floor("part lookups", n, 3)


def element(v, cs=None):
    """(collection, index) of the value of an element"""
    if v is not None and v[0] == "p":
        v = v[1]
    if v is not None and v[0] == "i":
        return v[1], v[2]
    return None, None


class BulkSim(PartSim):
    """only the values that reach the operations of interest"""
    NAMES = {"norms", "search", "SegmentMergeInfo", "arrayCopy"}

    def __init__(self, f):
        super().__init__(None)
        self.only = slice_vars([f], [a for x in self.db.calls(f) if (x[0] == "call" and name_of(x[2]).split("::")[-1] in self.NAMES or x[0] == "new" and x[2] in self.NAMES)
                                     for a in ((x[4] + ([x[3]] if x[3] is not None else [])) if x[0] == "call" else x[3])] +
                               [x[k] for x in walk(f.body) if x[0] == "asg" and x[3][0] == "field" and x[3][3] == "SegmentMergeInfo::ord" for k in (3, 4)])

    def track(self, path, typ):
        return super().track(path, typ) and (path[1] in self.only or path[2] != 0)

    def inline(self, fn, node, st, fr):
        return super().inline(fn, node, st, fr) and bool(BulkSim.names(self.db, fn) & self.NAMES)

    @staticmethod
    def names(d, f):
        return {name_of(x[2]).split("::")[-1] for x in d.calls(f) if x[0] == "call"} | {x[2] for x in d.calls(f) if x[0] == "new"} if f.body is not None else set()


def bulk(res, d):
    """whole-part operations of composites: norms, search, and the cursors of merged term lists"""
    n = m = k = 0
    for f in sorted((f for f in d.fns.values() if f.body is not None), key=lambda f: f.key):
        names = BulkSim.names(d, f)
        if not names & BulkSim.NAMES:
            continue
        p, s = parts(d, f.cls) if f.cls in d.classes else ([], [])
        if not (p and s) and "SegmentMergeInfo" not in names:
            continue
        sm = BulkSim(f)
        sm.run(f)
        S = [("f", ("this",), x) for x in s]
        own = [("p", ("v", x[0], 0)) for x in f.params if isint(x[1]) and f.name == "norms"]
        for line, fn, name, rp, vs, node in sm.bulk:
            if name == "norms" and rp[0] == "i" and rp[1][0] == "f" and rp[1][2] in p:
                n += 1
                res.ob("%s:%d norms of a part" % (fn.qn, line))
                if sorted(plus(vs[2]), key=repr) not in [sorted([("p", ("i", x, rp[2]))] + own, key=repr) for x in S]:
                    res.bad(f.qn + "/norms", "%s:%d (%s): norms of a part are written at %s, not at the part's start%s" % (fn.file, line, fn.qn, vs[2], " moved by the caller's offset" if own else ""))
            if name == "arrayCopy" and len(vs) == 5:
                c, i = element(vs[3])
                if c in S:
                    n += 1
                    res.ob("%s:%d norms of a part copied" % (fn.qn, line))
                    nxt = [("op", "-", ("p", ("i", c, j)), ("p", ("i", c, i))) for j in ([("k", i[1] + 1)] if i[0] == "k" else [("op", "+", i, ("k", 1)), ("op", "+", ("k", 1), i)])]
                    sc, si = element(vs[1])
                    if vs[4] not in nxt and not (vs[4][0] in ("u", "nn") or vs[4][0] == "p"):
                        res.bad(f.qn + "/length", "%s:%d (%s) copies %s values, not as many as the part has documents" % (fn.file, line, fn.qn, vs[4]))
                    if sc == c or sc is None:
                        res.bad(f.qn + "/source", "%s:%d (%s) takes the values of a part from %s, not from where that part used to start" % (fn.file, line, fn.qn, vs[1]))
            if name == "search" and rp[0] == "i" and rp[1][0] == "f" and rp[1][2] in p and vs[2] in sm.made:
                e, avs = sm.made[vs[2]]
                cls = e[2]
                if not d.isa(cls, "Collector"):
                    continue
                m += 1
                res.ob("%s:%d hits of a part collected" % (fn.qn, line))
                t = told(d, cls)
                ctor = [x for x in d.ctors_run(e) if x.cls == cls]
                fld = None
                j = [i for i, x in enumerate(avs) if x in [("p", ("i", c, rp[2])) for c in S]]
                if ctor and j:
                    o = DocSim().run(ctor[0], cls=cls)
                    for v, st in (o.R or [(None, x) for x in o.F]):
                        for q, x in st.env.items():
                            if q[0] == "f" and q[1] == ("this",) and x == ("p", ("v", ctor[0].params[j[0]][0], 0)):
                                fld = q
                if fld is None:
                    res.bad(f.qn + "/start", "%s:%d (%s) collects hits of a part without that part's start" % (fn.file, line, fn.qn))
                elif t is not None:
                    for l2, fn2, qn, rp2, v2, st2 in t[3].ev_calls:
                        if qn.endswith("::setNextReader") and len(v2) == 2 and sorted(plus(v2[1]), key=repr) != sorted([t[1], ("p", fld)], key=repr):
                            res.bad(t[0].qn + "/start", "%s:%d (%s) passes on a base without the part's start added exactly once: %s" % (fn2.file, l2, fn2.qn, v2[1]))
        for line, fn, vs in sm.infos:
            k += 1
            res.ob("%s:%d term list of a part" % (fn.qn, line))
            c, i = element(vs[0])
            r, j = element(vs[2]) if len(vs) > 2 else (None, None)
            if c is not None and r is not None and i != j:
                res.bad(f.qn + "/info", "%s:%d (%s) pairs a part's terms with the start of another part" % (fn.file, line, fn.qn))
        for line, fn, o, v in sm.ords:
            if o[:2] == ("u", "info"):
                r, j = element(o[3])
                c, i = element(o[2])
                res.ob("%s:%d number of a part" % (fn.qn, line))
                if j is not None and v != j or i is not None and v != i:
                    res.bad(f.qn + "/ord", "%s:%d (%s) records a part under another number" % (fn.file, line, fn.qn))
    res.floor("norms of parts", n, 5)
    res.floor("collectors given to parts", m, 1)
    res.floor("term lists of parts", k, 2)


def run_multidocs(res, d, c):
    fs = {x[0].split("::")[-1]: x[0] for x in d.fields(c)}
    starts = ("f", ("this",), [x[0] for x in d.fields(c) if x[1] == "Collection<int>" and x[0].endswith("starts")][0])
    for sig in ("doc()", "next()", "skipTo(int)", READ):
        f = d.method(c, sig)
        if f is None or f.body is None:
            res.errors.append("missing %s::%s" % (c, sig)); continue
        s = MultiDocsSim()
        o = s.run(f, cls=c, env={("f", ("this",), x[0]): ("u", "init", x[0]) for x in d.fields(c) if isint(x[1])})
        res.ob(f.qn)
        if sig != "doc()" and not s.pairs:
            res.bad(f.qn + "/pairs", "%s never changes to the next part" % f.where())
        for line, qn, rp, vs, st in s.calls:
            if qn.endswith("::skipTo") and vs:
                t = ("p", ("v", f.params[0][0], 0))
                v = vs[0]
                base = st.env.get(("f", ("this",), c + "::base"), ("u", "init", c + "::base"))
                if v != ("op", "-", t, base):
                    res.bad(f.qn + "/skip", "%s:%d (%s) skips a part to %s, not to the target minus the part's base" % (f.file, line, f.qn, v))
        if sig == "doc()":
            for v, st in o.R:
                a = plus(v)
                if ("u", "init", c + "::base") not in a or len(a) != 2:
                    res.bad(f.qn + "/doc", "%s %s does not return the part's number plus its base" % (f.where(), f.qn))
        # whenever the current part changes its base is set from the same slot
        for line, fn, b, w in s.pairs:
            res.ob("%s:%d part and base" % (fn.qn, line))
            if b != ("p", ("i", starts, w)):
                res.bad(f.qn + "/base", "%s:%d (%s) changes to another part without its base (%s, %s)" % (fn.file, line, fn.qn, b, w))


PROPS = [P(
    "C24", "An iterator's reported position is the document it returned",
    "Whenever a matching-document iterator (every scorer, filter set and bit set) is moved to its next document or advanced to a target, the number it returns is the position it reports afterwards, and when it returns the end marker it also reports the end marker.",
    ["inputs", "histories"], "every nextDoc/advance of every iterator class, every path through it and the helpers it overrides",
    "Conjunctions, exclusions and filters trust the reported position of their sub-iterators; a stale position shows only for particular interleavings of matches.",
    ["src/core/search", "src/core/util"], [("nextDoc/advance/docID", "all subclasses of DocIdSetIterator")],
    "symbolic value propagation: returned value against the position expression evaluated in the exit state, on every path",
    "Results of moving an inner iterator become its position (assume-guarantee). Two exact-phrase methods whose position lives in a rebuilt list are undecided and reported as such in the evidence; the collect-only bucket adapter is not an iterator.",
    run_c24, trusted=["lpp/sym.py"]), P(
    "C25", "Collected document numbers are index-wide",
    "Every document number a collector keeps, compares with kept ones or uses as a sort value is the segment's own number plus the base announced for that segment, added exactly once. Segment-level comparators and wrapped collectors get the segment's own number, and are told each segment's reader and base before its documents; the searcher pairs each segment reader with that segment's base.",
    ["inputs", "histories"], "every collector class (sorting, scoring, in- and out-of-order, wrapping), every path of its collect and setNextReader, every loop that drives collectors",
    "With one segment the base is zero and every mistake is invisible; ties and queue states decide which path runs.",
    ["src/core/search"], [("collect/setNextReader", "TopFieldCollector.cpp, TopScoreDocCollector.cpp, MultiSearcher.cpp, FieldComparator.cpp, IndexSearcher.cpp")],
    "symbolic value propagation over collectors with a segment-relative / index-wide distinction",
    "Sinks are the hit objects and document-valued sort keys; sums are compared modulo order.", run_c25, trusted=["lpp/sym.py"]), P(
    "C16", "A composite addresses each document in the right part with the right number",
    "A multi-segment reader, a multi-reader or a multi-searcher serves every operation on one document by the part that holds it, passing the number minus that part's start; numbers coming back from a part (postings, hits, document-number sort keys) get that part's start added exactly once. The start of each part is the sum of the sizes of the parts before it.",
    ["inputs", "configurations"], "every per-document operation of every composite class, the construction of the start tables, composite postings and the merging of hits",
    "An index with one segment, or documents of the first segment, never show a wrong start.",
    ["src/core/index/DirectoryReader.cpp", "src/core/index/MultiReader.cpp", "src/core/search/MultiSearcher.cpp", "src/core/search/IndexSearcher.cpp"],
    [("starts / readerIndex / subSearcher", "DirectoryReader.cpp, MultiReader.cpp, MultiSearcher.cpp"), ("MultiTermDocs base", "DirectoryReader.cpp")],
    "symbolic value propagation: argument of each call on an element of the parts against the element's start",
    "The library search std::upper_bound is trusted, its range, key and use are checked; a hand-written search of the start table would be trusted.", run_c16, trusted=["lpp/sym.py"])]
