"""C21-C23, C27: attributes and token streams."""
from ..reg import P
from ..sym import SymSim
from ..elems import ElemSim
from ..db import db, walk, is_node, name_of
from ..sim import Sim, TRUE, FALSE, NUL, AnalysisError
from ..mustset import Must, MustCall, Exposed
from ..cloning import CloneSim

SYNC = ("objectLock", "objectSignal")
SRC = ("src/core", "src/contrib", "include")


def attrs(d):
    return [c for c in sorted(d.subs("Attribute")) if d.classes[c].file.startswith(SRC) and not d.classes[c].abstract and c != "Attribute"]


# ---- C21 ------------------------------------------------------------------------------------------------------------
BUFFERS = ("_termBuffer",)      # valid up to the length field only


class ConstSim(SymSim):
    def track(self, path, typ):
        return True

    def result(self, e, key, rp, vs, st, fr):
        if rp is None and not vs and name_of(key).split("::")[-1] not in ("newInstance",):
            return ("op", "call:" + name_of(key))       # the one value of a function without arguments
        return super().result(e, key, rp, vs, st, fr)


def copied(res, d, c, f, A):
    """values a target of class A has after copying an attribute of class c to it"""
    fl = [x for x in d.fields(A, True) if x[0].split("::")[-1] not in SYNC]
    mine = {x[0].split("::")[-1]: x[0] for x in d.fields(c, True)}
    sim = CloneSim(f.cls)
    sim.watch = {x[0] for x in fl}
    v = ("nn", "target", 0)
    sim.dyn = (v, A)
    o = sim.run(f, auto=frozenset(), env={("v", f.params[0][0], 0): v})
    for x, ty, ln, st in fl:
        short = x.split("::")[-1]
        if short not in mine or short in BUFFERS:
            continue
        me = ("f", ("this",), mine[short])
        res.ob("%s: %s of a %s gets the value of %s" % (f.key, x, A, mine[short]))
        for _, s in o.R:
            last = {y[1]: y[2] for y in s.auto if y[0] == "last"}
            w = last.get(x)
            null = w == NUL and s.facts.get(("t", ("p", me))) is False
            ok = w is not None and (w == ("p", me) or w[0] in ("u", "site") or null or w[0] == "op" and w[1].endswith("::clone") and w[2] == me)
            if w == NUL and not null:
                ok = False
            if not ok:
                res.bad("%s/copyTo/%s/%s" % (c, A, short), "%s:%d %s can give %s of the target another value than %s" % (f.file, f.line, f.qn, x, mine[short]))
                break
            if ty == "P<Payload>" and w == ("p", me) and s.facts.get(("t", ("p", me))) is not False:
                res.bad("%s/copyTo/%s/%s/shared" % (c, A, short), "%s:%d %s makes the target share the payload" % (f.file, f.line, f.qn))
                break
    ln = ("p", ("f", ("this",), mine.get("_termLength")))
    for (line, qn), w in sorted(sim.copies.items()):
        res.ob("%s: whole term text copied" % f.key)
        if not (w[1] == w[3] == ("k", 0)) and "u" not in (w[1][0], w[3][0]) or w[4] != ln and w[4][0] not in ("u", "site"):
            res.bad("%s/copyTo/%s/text" % (c, A), "%s:%d %s does not copy exactly the text of the term" % (f.file, line, f.qn))


def run21(res, tier):
    d = db()
    n = 0
    for c in attrs(d):
        fl = [x for x in d.fields(c, True) if x[0].split("::")[-1] not in SYNC]
        if not fl:
            continue
        n += 1
        f = d.method(c, "clear()")
        if f is None:
            res.bad(c + "/clear", "%s has no clear()" % c)
        else:
            a = Must(c).fn(f) or frozenset()
            for x, ty, ln, st in fl:
                if x.split("::")[-1] in BUFFERS:
                    continue
                res.ob("%s assigns %s on every path" % (f.key, x))
                if x not in a:
                    res.bad("%s/clear/%s" % (c, x), "%s:%d %s can leave %s as it was" % (f.file, f.line, f.qn, x))
        f = d.method(c, "copyTo(P<Attribute>)")
        if f is None or f.body is None:
            res.bad(c + "/copyTo", "%s has no copyTo()" % c)
            continue
        sim = CloneSim(f.cls)
        o = sim.run(f, auto=frozenset())
        paths = [x.auto for v, x in o.R]
        # a token may also fill single attributes: those paths copy part of it on purpose
        full = [p for p in paths if p] if c == "Token" else paths
        if not full:
            res.bad(c + "/copyTo", "%s:%d %s copies nothing" % (f.file, f.line, f.qn))
            continue
        for x, ty, ln, st in fl:
            buf = x.split("::")[-1] in BUFFERS
            res.ob("%s copies %s on %d paths" % (f.key, x, len(full)))
            hit = [p for p in full if (x, "set") in p]
            if x not in sim.deps or (not buf and len(hit) < len(full)):
                res.bad("%s/copyTo/%s" % (c, x), "%s:%d %s can leave %s of the target as it was" % (f.file, f.line, f.qn, x))
        for A in ([c] if c != "Token" else attrs(d)):
            copied(res, d, c, f, A)
        # the values clear() leaves are those of a fresh object
        ct = [g for g in d.byqn.get(c + "::" + c, ()) if g.kind == "ctor" and not g.params and g.body is not None]
        f = d.method(c, "clear()")
        if ct and f is not None and f.body is not None:
            fresh = ConstSim().run(ct[0], cls=c, with_inits=True)
            after = ConstSim().run(f, cls=c)
            for x, ty, ln, st in fl:
                p = ("f", ("this",), x)
                a = {s.env[p] for v, s in fresh.R if p in s.env}
                for v, s in after.R:
                    b = s.env.get(p)
                    one = list(a)[0] if len(a) == 1 else ("u",)
                    if b is not None and b[0] == "k" and one[0] == "k" or one[0] == "op" and one[1].startswith("call:") and len(one) == 2:
                        res.ob()
                        if b not in a:
                            res.bad("%s/default/%s" % (c, x), "%s:%d %s sets %s to %s, a fresh object has %s" % (f.file, f.line, f.qn, x, b[1] if b and b[0] == "k" else "something else", one[1].replace("call:", "")) if one[0] == "op" else "%s:%d %s sets %s to %s, a fresh object has %s" % (f.file, f.line, f.qn, x, b[1], one[1]))
        # refilling a token replaces all of it
        for f in sorted((g for g in d.fns.values() if g.cls == c and g.name == "reinit" and g.body is not None), key=lambda g: g.key):
            a = Must(c).fn(f) or frozenset()
            for x, ty, ln, st in fl:
                res.ob()
                if x.split("::")[-1] not in BUFFERS and x not in a:
                    res.bad("%s/%s" % (f.key, x), "%s:%d %s can leave %s of the earlier token as it was" % (f.file, f.line, f.qn, x))
    res.floor("attribute classes", n, 7)


# ---- C22 ------------------------------------------------------------------------------------------------------------
class TokSim(Sim):
    steps_cap = 60000

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.early = {}

    def may_throw(self, node, targets, st, fr):
        return False

    def inline(self, fn, node, st, fr):
        return fn.cls is not None and node[3] is not None and node[3][0] == "this" and self.db.isa(self.cls, fn.cls) and fn.name not in ("clearAttributes", "restoreState", "captureState")

    def call_relevant(self, n):
        return True

    def pre_call(self, node, key, rp, vs, st, fr):
        q = name_of(key)
        nm = q.split("::")[-1]
        if nm in ("clearAttributes", "restoreState"):
            return st.a(True)
        if nm == "incrementToken" and (node[3] is None or node[3][0] != "this"):
            return st.a(True)
        c = q.rpartition("::")[0]
        if c in self.db.classes and self.db.isa(c, "Attribute") and (nm.startswith("set") or nm in ("resizeTermBuffer", "growTermBuffer")) and not st.auto:
            self.early.setdefault((fr.fn.file, node[1], fr.fn.qn, nm), 1)
        return st


ATTRS = "AttributeSource::attributes"
CHAIN = "P<AttributeSourceState>"


class SourceSim(ElemSim):
    """auto: "none" | "pending" (an attribute was taken up) | "idle" (it was treated) | "all" | "skipped" """
    verb = "clear"

    def __init__(self):
        super().__init__()
        self.cls = "AttributeSource"

    def may_throw(self, node, targets, st, fr):
        return False

    def inline(self, fn, node, st, fr):
        return fn.cls == "AttributeSource" and node[3] is not None and node[3][0] == "this" and fn.name != "computeCurrentState"

    def call_relevant(self, n):
        return True

    def track(self, path, typ):
        return True

    def mine(self, C):
        return C[0] == "f" and C[2] == ATTRS

    def step(self, st):
        return st.a("skipped" if st.auto in ("pending", "skipped") else "pending")

    def done(self, st):
        return st.a("skipped" if st.auto in ("pending", "skipped") else "all")

    def on_begin(self, C, st, node, fr):
        return st.a("none") if self.mine(C) and st.auto != "all" else st

    def on_iter(self, C, st, node, fr):
        return self.step(st) if self.mine(C) else st

    def on_iter_end(self, C, st, node, fr):
        return self.done(st) if self.mine(C) else st

    def on_call(self, node, key, rp, vs, st, fr, xs):
        if name_of(key) == "Map::empty" and self.mine(self.cval(rp, st)):
            return [(("u", "none", self.cval(rp, st)), st)]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def on_branch(self, c, v, t, f, fr):
        if v[:2] == ("u", "none"):
            return [x.a("all") for x in t], f
        if c[0] in ("var", "field") and c[-1] == CHAIN and not (c[0] == "field" and c[3].endswith("::currentState")):
            same = lambda x: x.facts.get("chain") == v and x.auto == "pending"
            return [x if same(x) else self.step(x).fact("chain", v) for x in t], [self.done(x) for x in f]
        return t, f

    def pre_call(self, node, key, rp, vs, st, fr):
        q = name_of(key)
        c, _, m = q.rpartition("::")
        if m == self.verb and c in self.db.classes and self.db.isa(c, "Attribute") and st.auto == "pending":
            return st.a("idle")
        return st


class PutSim(SourceSim):
    def on_iter(self, C, st, node, fr):
        return st

    on_begin = on_iter_end = on_iter

    def on_branch(self, c, v, t, f, fr):
        return t, f

    def pre_call(self, node, key, rp, vs, st, fr):
        q = name_of(key)
        if q in ("Map::put", "Map::remove", "Map::clear") and rp is not None and self.cval(rp, st) == ("f", ("this",), ATTRS):
            return st.a(st.auto | {"put"})
        if q == "Map::put" and rp is not None and rp[0] == "f" and rp[2] == ATTRS and vs[1] is not None and vs[1][0] == "p":
            return st.a(st.auto | {"share"})
        return st

    def on_assign(self, path, val, st, node, fr):
        if path == ("f", ("this",), "AttributeSource::currentState"):
            return st.a(st.auto | {"reset"})
        return st


def source22(res, d):
    """what clearing, capturing and restoring the attributes of a source do"""
    for nm, verb in (("clearAttributes()", "clear"), ("restoreState(P<AttributeSourceState>)", "copyTo")):
        f = d.method("AttributeSource", nm)
        s = SourceSim()
        s.verb = verb
        o = s.run(f, auto="none", cls="AttributeSource")
        for _, x in o.R:
            res.ob("%s: path to the end has treated every attribute" % f.qn)
            if x.auto != "all":
                res.bad("%s/every" % f.qn, "%s:%d %s can return without having called %s for every attribute (%s)" % (f.file, f.line, f.qn, verb, x.auto))
                break
    f = d.method("AttributeSource", "captureState()")
    o = SourceSim().run(f, auto="none", cls="AttributeSource")
    for v, x in o.R:
        res.ob("%s: the captured state is a copy" % f.qn)
        if v is not None and v[0] == "p":
            res.bad("%s/copy" % f.qn, "%s:%d %s answers with the attributes themselves, not with a copy of their values" % (f.file, f.line, f.qn))
            break
    for f in d.fns.values():
        if f.cls != "AttributeSource" or f.kind in ("ctor", "dtor") or f.body is None:
            continue
        for v, x in PutSim().run(f, auto=frozenset(), cls="AttributeSource").R:
            if "share" in x.auto:
                res.bad("%s/shared" % f.qn, "%s:%d %s puts an attribute of this source into another one instead of a copy" % (f.file, f.line, f.qn))
                break
            if "put" not in x.auto:
                continue
            res.ob("%s: the chain of attributes is computed again after the set changed" % f.qn)
            if "reset" not in x.auto:
                res.bad("%s/chain" % f.qn, "%s:%d %s changes the set of attributes and keeps the chain computed before" % (f.file, f.line, f.qn))
                break


def run22(res, tier):
    d = db()
    source22(res, d)
    n = 0
    seen = set()
    for c in sorted(d.subs("TokenStream")):
        if not d.classes[c].file.startswith(SRC):
            continue
        f = d.method(c, "incrementToken()")
        if f is None or f.body is None or f.cls != c:
            continue
        n += 1
        s = TokSim(c)
        o = s.run(f, auto=False, cls=c)
        ok = True
        for v, x in o.R:
            res.ob("%s: path answering true starts from cleared, restored or upstream attributes" % f.qn)
            if v != FALSE and not x.auto:
                ok = False
        if not ok:
            res.bad(f.qn, "%s:%d %s can deliver a token without clearing the attributes of the previous one first" % (f.file, f.line, f.qn))
        for file, ln, qn, nm in sorted(s.early):
            res.bad("%s/%s" % (f.qn, nm), "%s:%d %s calls %s before the attributes of the previous token are cleared" % (file, ln, qn, nm))
    res.floor("token streams", n, 28)


# ---- C23 ------------------------------------------------------------------------------------------------------------
# not carried from one use to the next, with the reason
NOTSTATE = {
    "AttributeSource::currentState": "chain of the attributes themselves, rebuilt when one is added",
    "CJKTokenizer::buffer": "valid up to the length computed from scratch", "ChineseTokenizer::buffer": "valid up to the length computed from scratch",
    "ASCIIFoldingFilter::output": "scratch buffer valid up to outputPos", "ISOLatin1AccentFilter::output": "scratch buffer valid up to outputPos",
    "CachingTokenFilter::cache": "kept on purpose: reset replays it", "StandardTokenizerImpl::zzBuffer": "valid up to zzEndRead",
    "StoredTokenStream::currentToken": "single use, reset is optional", "MultiTermDocs::readerTermDocs": "cache of per-segment readers, sought again before use",
    "SegmentTermDocs::skipListReader": "cache, initialised again when haveSkipped is false", "SegmentTermPositions::proxStream": "lazily opened clone, repositioned by seek",
    "SegmentTermDocs::_freq": "set by next together with _doc", "MultiLevelSkipListReader::skipStream": "streams, element 0 reused, others reloaded by loadSkipLevels",
    "SegmentTermPositions::position": "set to 0 by next",
}
# assigned again only under the condition that makes the old value reachable
GUARDED = {"SegmentTermDocs::freqBasePointer", "SegmentTermDocs::proxBasePointer", "SegmentTermDocs::skipPointer", "CachingTokenFilter::iterator", "SegmentTermDocs::_doc", "SegmentTermDocs::haveSkipped", "SegmentTermPositions::lazySkipPointer"}
UNREACHED = {"NGramTokenFilter::curGramSize", "NGramTokenFilter::curPos", "NGramTokenFilter::curTermLength", "NGramTokenFilter::state"}
UNREACHED_WHY = ("NGramTokenFilter::curTermBuffer",)   # while this is null they are assigned before they are read

PAIRS = [   # class, working methods, methods that together start it afresh
    ("StandardTokenizerImpl", ["getNextToken"], ["reset(P<Reader>)"]),
    ("SegmentTermDocs", ["next", "read", "skipTo", "doc", "freq"], ["seek(P<TermInfo>,P<Term>)"]),
    ("SegmentTermPositions", ["next", "read", "skipTo", "doc", "freq", "nextPosition", "getPayload", "isPayloadAvailable"], ["seek(P<TermInfo>,P<Term>)"]),
    ("MultiTermDocs", ["next", "read", "skipTo"], ["seek(P<Term>)"]),
    ("MultiTermDocs", ["next", "read", "skipTo"], ["seek(P<TermEnum>)"]),
    ("MultiTermPositions", ["next", "read", "skipTo"], ["seek(P<Term>)"]),
    ("MultiTermPositions", ["next", "read", "skipTo"], ["seek(P<TermEnum>)"]),
]
# every field (but those listed) is assigned
FULL = [
    ("FieldInvertState", "reset(double)", ("attributeSource",)),
    ("SegmentInfo", "reset(P<SegmentInfo>)", ("_files", "_sizeInBytes", "docStoreSegment", "hasProx", "diagnostics")),   # fixed when the segment is written
    ("CharBlockPool", "reset()", ("_docWriter", "buffers", "buffer", "numBuffer")),
]


def state_of(c, work):
    d = db()
    m = Exposed(c)
    e = set(); a = set()
    for w in work:
        for f in d.methods_named(c, w):
            if f.body is not None:
                m.fn(f)
                e |= m.exp.get(f.key, set()); a |= m.asg.get(f.key, set())
    return e & a


def fresh(c, resets, res):
    d = db()
    M = Must(c); E = Exposed(c)
    must = set(); may = set()
    n = 0
    for r in resets:
        f = d.method(c, r)
        if f is None or f.body is None:
            continue
        n += 1
        must |= M.fn(f) or frozenset()
        E.fn(f); may |= E.asg.get(f.key, set())
    return (must, may) if n else None


def judge(res, c, work, resets, more=frozenset()):
    d = db()
    st = state_of(c, work)
    fr = fresh(c, resets, res)
    where = d.classes[c].file
    if fr is None:
        if st - set(NOTSTATE):
            res.bad("%s/reset" % c, "%s: %s keeps state between tokens but cannot be reset" % (where, c))
        return
    must, may = fr
    st = st | more
    for r in resets:
        f = d.method(c, r)
        if f is None or f.body is None:
            continue
        E = Exposed(c)
        E.fn(f)
        for x in sorted((E.exp.get(f.key) or set()) & st - set(NOTSTATE)):
            res.bad("%s/%s/old" % (c, x), "%s:%d %s consults %s as the previous use left it" % (f.file, f.line, f.qn, x))
    parts = {p for p, _, _ in PAIRS}
    for x, ty, ln, stat in d.fields(c, True):
        t = ty[2:-1] if ty[:2] == "P<" else None
        if t in parts and t != c:
            rs = {r.partition("(")[0] for p, _, q in PAIRS for r in q if p == t}
            res.ob("%s: %s is started afresh by %s" % (c, x, "/".join(resets)))
            got = set()
            for r in resets:
                f = d.method(c, r)
                if f is not None and f.body is not None:
                    got |= MustCall(c).fn(f) or frozenset()
            if not any(x + "." + r in got for r in rs):
                res.bad("%s/%s/part" % (c, x), "%s: %s of %s is not started afresh on every path of %s" % (where, x, c, "/".join(resets)))
    for x in sorted(st):
        res.ob("%s: %s re-established by %s" % (c, x, "/".join(resets)))
        if x in must or x in NOTSTATE or (x in GUARDED and x in may):
            continue
        if x in UNREACHED and UNREACHED_WHY[0] in must:
            continue
        res.bad("%s/%s" % (c, x), "%s: %s is carried from one use of %s to the next: read by %s, not assigned on every path of %s" % (where, x, c, "/".join(work), "/".join(resets)))


def run23(res, tier):
    d = db()
    n = 0
    for c in sorted(d.subs("TokenStream")):
        if not d.classes[c].file.startswith(SRC):
            continue
        f = d.method(c, "incrementToken()")
        if f is None or f.body is None:
            continue
        n += 1
        judge(res, c, ["incrementToken"], ["reset(P<Reader>)", "reset()"] if d.isa(c, "Tokenizer") else ["reset()"])
        # a wrapping stream resets the stream it wraps
        if d.isa(c, "TokenFilter"):
            r = d.method(c, "reset()")
            res.ob()
            if r is None or not passes_on(r, "reset", c):
                if c not in ("CachingTokenFilter",):
                    res.bad("%s/reset-input" % c, "%s: %s does not reset its input" % (d.classes[c].file, (r.qn if r else c + "::reset")))
            e = d.method(c, "end()")
            res.ob()
            if e is None or not passes_on(e, "end", c):
                if c not in ("CachingTokenFilter",):
                    res.bad("%s/end-input" % c, "%s: %s does not end its input" % (d.classes[c].file, (e.qn if e else c + "::end")))
    for c, w, r in PAIRS:
        if c not in d.classes:
            res.errors.append("analysis broken: class %s not found" % c)
            continue
        if fresh(c, r, res) is None:
            res.errors.append("analysis broken: %s of %s not found" % (r, c))
            continue
        # what any of the repositioning operations sets is state too
        more = set()
        for p, _, q in PAIRS:
            if p == c:
                for y in q:
                    f = d.method(c, y)
                    if f is not None and f.body is not None:
                        E = Exposed(c)
                        E.fn(f)
                        more |= E.asg.get(f.key, set())
        judge(res, c, w, r, more); n += 1
    for c, r, ex in FULL:
        f = d.method(c, r)
        if f is None:
            res.errors.append("analysis broken: %s of %s not found" % (r, c))
            continue
        n += 1
        a = Must(c).fn(f) or frozenset()
        for x, ty, ln, st in d.fields(c):
            if x.split("::")[-1] in ex + SYNC:
                continue
            res.ob("%s assigns %s" % (f.key, x))
            if x not in a:
                res.bad("%s/%s" % (f.qn, x), "%s:%d %s can leave %s as it was" % (f.file, f.line, f.qn, x))
    res.floor("reusable objects", n, 40)


def passes_on(f, nm, cls):
    """does every path of f (calls on this included) call `nm` on a wrapped stream?"""
    return any(x.endswith("::input." + nm) for x in MustCall(cls).fn(f) or ())


# ---- C27 ------------------------------------------------------------------------------------------------------------
SETS = ("OffsetAttribute::setOffset", "Token::setOffset", "Token::setStartOffset", "Token::setEndOffset")


class OffsetSim(SymSim):
    """values ("op", "corr", x): x mapped back to the original text; auto: has an offset been reported"""
    steps_cap = 60000
    slicing = True

    def __init__(self, f, cls, field=None):
        super().__init__()
        self.seen = {}        # (file, line, function, argument) -> values reported
        self.stored = {}      # field -> values assigned to it
        d = db()
        self.reach = set()    # functions called on this that report or map
        body = list(deep(f, d, set(), cls))
        self.mem = {}
        self.cl = cls
        # locals and fields that flow into a reported offset other than through correctOffset
        self.rel = {field} if field else set()
        for x in body:
            if x[0] == "call" and name_of(x[2]) in SETS:
                for a in x[4]:
                    self.flow(a)
        n = -1
        while n != len(self.rel):
            n = len(self.rel)
            for x in body:
                if x[0] == "decl" and x[2] in self.rel and is_node(x[4]):
                    self.flow(x[4])
                elif x[0] == "asg" and x[3][0] in ("var", "field") and x[3][2 if x[3][0] == "var" else 3] in self.rel:
                    self.flow(x[4])
                elif x[0] == "call" and x[3] is not None and x[3][0] == "this" and not name_of(x[2]).endswith("::correctOffset") and self.reaches(x):
                    for t in d.targets(x, cls):
                        for p, a in zip(t.params, x[4]):
                            if p[0] in self.rel:
                                self.flow(a)
                        for y in walk(t.body) if t.body else ():
                            if y[0] == "ret" and is_node(y[2]):
                                self.flow(y[2])

    def flow(self, e):
        if not is_node(e):
            return
        if e[0] == "call" and name_of(e[2]).endswith("::correctOffset"):
            return
        if e[0] == "var":
            self.rel.add(e[2])
        elif e[0] == "field":
            self.rel.add(e[3])
        for x in e[2:]:
            if is_node(x):
                self.flow(x)

    def keep(self, c, v, fr):
        return False

    def compare(self, c, a, b, st, fr):
        return [st], [st]

    def assign(self, path, val, st, node, fr, typ, isdecl=False):
        if not (val[:2] == ("op", "corr") or val == ("k", 0) or val[0] == "p"):
            val = ("u", "raw")
        return super().assign(path, val, st, node, fr, typ, isdecl)

    def reaches(self, n):
        r = self.mem.get(id(n))
        if r is None:
            r = False
            for t in db().targets(n, self.cl):
                for y in deep(t, db(), set(), self.cl):
                    if y[0] == "call" and (name_of(y[2]) in SETS or name_of(y[2]).endswith("::correctOffset")) or y[0] == "asg" and y[3][0] == "field" and y[3][3] in self.rel:
                        r = True
            self.mem[id(n)] = r
        return r

    def track(self, path, typ):
        return path[0] in ("v", "f") and path[1 if path[0] == "v" else 2] in self.rel

    def field_relevant(self, qn, typ):
        return qn in self.rel

    def call_relevant(self, n):
        if n[0] != "call":
            return False
        return name_of(n[2]) in SETS or name_of(n[2]).endswith("::correctOffset") or n[3] is not None and n[3][0] == "this" and self.reaches(n)

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and node[3] is not None and node[3][0] == "this" and self.reaches(node)

    def on_call(self, node, key, rp, vs, st, fr, xs):
        if name_of(key).split("::")[-1] == "correctOffset":
            return [(("op", "corr", ("k", 0)), st)]
        if name_of(key) in SETS:
            for i, v in enumerate(vs):
                self.seen.setdefault((fr.fn.file, node[1], fr.fn.qn, i + 1), set()).add(v)
            return [(("u", "void"), st.a(True))]
        return None

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f" and path[1] == ("this",):
            self.stored.setdefault(path[2], set()).add(val)
        return st


def mapped(v, d, cls, seen):
    if v[:2] == ("op", "corr"):
        return True
    if v[0] == "p" and v[1][0] == "f" and v[1][1] == ("this",):
        # every value the field is ever given: 0 (before the first token) or a mapped offset
        x = v[1][2]
        if x in seen:
            return True
        seen = seen | {x}
        n = 0
        for g in d.fns.values():
            if g.cls and g.body is not None and d.isa(g.cls, x.rpartition("::")[0]) and any(y[0] in ("asg", "un") and y[3][0] == "field" and y[3][3] == x for y in d.nodes(g)):
                s = OffsetSim(g, g.cls, x)
                s.run(g, auto=False, cls=g.cls)
                for w in s.stored.get(x, ()):
                    n += w != ("k", 0)
                    if w != ("k", 0) and w != v and not mapped(w, d, cls, seen):
                        return False
        return n > 0
    return False


def run27(res, tier):
    d = db()
    n = 0
    done = set()
    for c in sorted(d.subs("Tokenizer")):
        if c == "Tokenizer" or not d.classes[c].file.startswith(SRC):
            continue
        for m in ("incrementToken()", "end()"):
            f = d.method(c, m)
            if f is None or f.body is None:
                if m == "end()":
                    res.ob(); res.bad("%s/end" % c, "%s: %s does not report the final offset at the end of the stream" % (d.classes[c].file, c))
                continue
            if f.key in done:
                continue
            s = OffsetSim(f, c)
            o = s.run(f, auto=False, cls=c)
            done.add(f.key)
            for (file, line, qn, i), vals in sorted(s.seen.items()):
                n += 1
                res.ob("%s:%d %s: argument %d of setOffset is a mapped offset" % (file, line, qn, i))
                if not all(mapped(v, d, c, frozenset()) for v in vals):
                    res.bad("%s/setOffset/%d" % (qn, i), "%s:%d %s reports an offset that was not mapped back to the original text (argument %d)" % (file, line, qn, i))
            if m == "end()":
                res.ob("%s reports the final offset on every path" % f.qn)
                if not all(x.auto for _, x in o.R):
                    res.bad("%s/end" % c, "%s:%d %s can return without reporting the final offset at the end of the stream" % (f.file, f.line, f.qn))
    charfilters(res, d)
    res.floor("offsets reported by tokenizers", n, 18)


class MapSim(SymSim):
    def track(self, path, typ):
        return True

    def inline(self, fn, node, st, fr):
        return fn.name not in ("correctOffset", "correct") and super().inline(fn, node, st, fr)

    def on_call(self, node, key, rp, vs, st, fr, xs):
        nm = name_of(key).split("::")[-1]
        if nm in ("correctOffset", "correct", "get"):
            return [(("op", nm, rp, tuple(vs)), st)]
        return None

    def keep(self, c, v, fr):
        return True


class CorrSim(MapSim):
    def compare(self, c, a, b, st, fr):
        t, f = super().compare(c, a, b, st, fr)
        if c[2] == "<" and t and f:
            t = [x.fact(("<", a, b), True) for x in t]; f = [x.fact(("<", a, b), False) for x in f]
        if c[2] == "==" and t and f:
            k = ("==", min(a, b, key=repr), max(a, b, key=repr))
            f = [x.fact(k, False) for x in f]
        return t, f


def known(v, st):
    return st.facts.get(("t", v))


def deep(f, d, seen, cls):
    if f.key in seen or f.body is None:
        return
    seen.add(f.key)
    for n in walk(f.body):
        yield n
        if n[0] == "call" and n[3] is not None and n[3][0] == "this":
            for t in d.targets(n, cls):
                yield from deep(t, d, seen, cls)


def charfilters(res, d):
    """the chain of maps: a filter maps with its own table, then through the stream it wraps"""
    for c in sorted(d.subs("CharFilter")):
        f = d.method(c, "correctOffset(int)")
        if f is None or f.body is None or f.cls != c:
            continue
        off = ("p", ("v", f.params[0][0], 0))
        src = ("f", ("this",), "CharFilter::input")
        want = ("op", "correctOffset", src, (("op", "correct", ("this",), (off,)),))
        for v, x in MapSim().run(f, auto=None, cls=c).R:
            res.ob("%s maps with its own table and then through the wrapped stream" % f.qn)
            if v != want:
                res.bad("%s/chain" % f.qn, "%s:%d %s does not map the offset with its own table and then through the stream it wraps" % (f.file, f.line, f.qn))
                break
    f = d.method("Tokenizer", "correctOffset(int)")
    off = ("p", ("v", f.params[0][0], 0))
    cs = ("f", ("this",), "Tokenizer::charStream")
    for v, x in MapSim().run(f, auto=None, cls="Tokenizer").R:
        res.ob("%s maps through the character stream when there is one" % f.qn)
        if not (v == ("op", "correctOffset", cs, (off,)) or v == off and (x.env.get(cs) == NUL or known(("p", cs), x) is False)):
            res.bad("%s/stream" % f.qn, "%s:%d %s can answer with an offset that was not mapped through the character stream" % (f.file, f.line, f.qn))
            break
    f = d.method("BaseCharFilter", "correct(int)")
    off = ("p", ("v", f.params[0][0], 0))
    O = ("f", ("this",), "BaseCharFilter::offsets"); D = ("f", ("this",), "BaseCharFilter::diffs")

    def less(x, k):
        r = x.facts.get(("<", off, ("p", ("i", O, k))))
        if r is None and x.facts.get(("==", ("p", ("i", O, k)), off)) or x.facts.get(("==", off, ("p", ("i", O, k)))):
            return False
        return r

    def zero(x, k):
        return k == ("k", 0) or x.facts.get(("==", ("k", 0), k)) is True
    for v, x in CorrSim().run(f, auto=None, cls=f.cls).R:
        ok = False
        if v == off:
            below = [k[2][1][2] for k, w in x.facts.items() if k[0] == "<" and k[1] == off and w is True and k[2][0] == "p" and k[2][1][0] == "i" and k[2][1][1] == O]
            ok = known(("p", O), x) is False or x.env.get(O) == NUL or any(zero(x, k) for k in below)
        elif v[:2] == ("op", "+") and off in v[2:]:
            w = v[3] if v[2] == off else v[2]
            if w[0] == "p" and w[1][0] == "i" and w[1][1] == D:
                k = w[1][2]
                nxt = ("k", k[1] + 1) if k[0] == "k" else k[2] if k[:2] == ("op", "-") and k[3] == ("k", 1) else None
                ok = less(x, k) is False or nxt is not None and less(x, nxt) is True
        res.ob("%s: the correction applied is the last one recorded at or before the offset" % f.qn)
        if not ok:
            res.bad("%s/table" % f.qn, "%s:%d %s can apply a correction that is not the one recorded for the offset" % (f.file, f.line, f.qn))
            break
    # input and charStream change together
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or not f.cls or not d.isa(f.cls, "Tokenizer") or f.name in ("close",):
            continue
        if not any(y[0] == "asg" and y[3][0] == "field" and y[3][3] in ("Tokenizer::input", "Tokenizer::charStream") for y in d.nodes(f)):
            if f.kind != "ctor":
                continue
        cs_ = [d.fns[k] for k in d.callers(f.key)]
        if f.kind != "ctor" and cs_ and all(g.kind == "ctor" for g in cs_):
            continue        # part of construction: followed from the constructors
        # what the base constructor leaves (each is checked itself): both follow the reader it was given
        env = {}
        for i in f.inits:
            if i[0] in ("b", "d") and is_node(i[2]) and i[2][0] == "ctor":
                for a in i[2][4]:
                    if is_node(a) and a[0] == "var" and a[3] == "P<Reader>":
                        env = {("f", ("this",), "Tokenizer::input"): ("p", ("v", a[2], 0)), cs: ("p", ("v", a[2], 0))}
        for v, x in MapSim().run(f, auto=None, cls=f.cls, env=env).R:
            a = x.env.get(("f", ("this",), "Tokenizer::input")); b = x.env.get(cs)
            res.ob("%s: the character stream is that of the input" % f.qn)
            if a is None and b is None or a == NUL:
                continue
            while a is not None and a[:2] == ("op", "get"):
                a = a[3][0]
            if b is not None and b[:2] == ("u", "dpc"):
                b = b[3]
            while b is not None and b[:2] == ("op", "get"):
                b = b[3][0]
            if a != b:
                res.bad("%s/input" % f.qn, "%s:%d %s gives the tokenizer a new input and maps offsets through another character stream" % (f.file, f.line, f.qn))
                break


PROPS = [P(
    "C21", "Clearing or copying an attribute covers its whole value",
    "Clearing a token attribute (term, offset, type, flags, payload, position increment, or a whole token) puts every part of its value back to the default. Copying it to another instance of the same kind, or refilling a token for reuse, overwrites every part of the target's value, so nothing of an earlier token survives.",
    ["inputs", "histories"], "every attribute class, every part of its value, every path of clear and copyTo",
    "A part left over from an earlier token is visible only for token sequences in which just that part changes.",
    ["src/core/tokenattributes", "src/core/analysis/Token.cpp"], [("clear / copyTo", "*Attribute.cpp, Token.cpp")],
    "definite-assignment dataflow over clear; path-sensitive field-coverage dataflow over copyTo",
    "Character buffers are valid up to the length field and need not be wiped; a token copied into a single attribute copies that part only.",
    run21, trusted=["lpp/mustset.py", "lpp/cloning.py", "lpp/sim.py"]),
  P("C22", "No token inherits attribute values from the previous token",
    "Whenever a token stream or tokenizer delivers a token, the attributes of the previous token were first cleared, restored from a captured state, or advanced by the stream it wraps. No attribute is set for the new token before that happened, and clearing, capturing and restoring treat every attribute of the stream, a captured state being a copy.",
    ["inputs", "histories"], "every token stream and filter, every path on which it delivers a token",
    "Stale attributes show only for sequences where a later token does not set an attribute an earlier one did.",
    ["src/core/analysis", "src/contrib/analyzers", "src/contrib/highlighter/TokenSources.cpp"], [("incrementToken", "all TokenStream subclasses"), ("AttributeSource::clearAttributes", "src/core/util/AttributeSource.cpp")],
    "path-sensitive event ordering (typestate) over incrementToken with helpers inlined",
    "Decides the order clear/restore/upstream-advance before set and before delivery on every path, and that the primitives visit every attribute.",
    run22, trusted=["lpp/sim.py", "lpp/elems.py"]),
  P("C23", "A reset or repositioned stream carries nothing over from its previous use",
    "After a tokenizer is given a new text, a token stream is reset, or a postings reader is repositioned to another term, every piece of state that decides its next results has been given a fresh value; wrapping token streams also reset and end the stream they wrap. Per-document field statistics likewise start afresh for each document.",
    ["histories", "inputs"], "every token stream with state between tokens, postings readers and per-document accumulators; every path of the operation that starts them afresh",
    "State that survives a reset matters only when the previous use stopped at a particular point (mid-token, mid-buffer).",
    ["src/core/analysis", "src/contrib/analyzers", "src/core/index/SegmentTermDocs.cpp", "src/core/index/SegmentTermPositions.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/FieldInvertState.cpp"],
    [("incrementToken / reset", "all TokenStream subclasses"), ("seek", "SegmentTermDocs, SegmentTermPositions, MultiTermDocs")],
    "upward-exposed-read dataflow (state carried over) against definite assignment in the resetting methods",
    "State = fields read before assigned by the working methods and assigned by them; each must be definitely assigned by reset/seek. Scratch buffers, caches and guarded fields are listed with reasons.",
    run23, trusted=["lpp/mustset.py", "tables in lpp/rules/tokens.py"]),
  P("C27", "Token offsets always refer to the original text",
    "Every start, end and final offset that a tokenizer reports has been mapped back through the character filters to a position in the original text. Every tokenizer reports a final offset at the end of the stream, and a tokenizer given a new text maps through the filters of that text.",
    ["inputs"], "every tokenizer, every offset it reports",
    "The mapping is the identity unless a character filter changed the length of the text before that position.",
    ["src/core/analysis", "src/contrib/analyzers"], [("Tokenizer::correctOffset / reset", "src/core/analysis/Tokenizer.cpp"), ("CharFilter::correctOffset, BaseCharFilter::correct", "src/core/analysis"), ("setOffset call sites", "all Tokenizer subclasses")],
    "path-sensitive provenance of every reported offset to correctOffset; symbolic evaluation of the chain of maps and of the correction table lookup",
    "Offsets recorded in the correction table while filtering are taken as given; token filters derive offsets from those of the tokenizer and are not covered.",
    run27, trusted=["lpp/sim.py", "lpp/sym.py"])]
