"""Field coverage of clone(): what the copy receives on every path."""
from .db import db, walk, name_of, is_node, strip_type
from .sim import Sim, TRUE, FALSE, NUL, mentions, depth_of
from .equality import root


class CloneSim(Sim):
    steps_cap = 40000
    symbolic = True

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.deps = {}        # field -> True when some assignment takes it from the same field of this
        self.conts = {n for n, t, l, s in self.db.fields(cls, True) if t.startswith(("Collection<", "Array<", "HashMap<", "Map<"))}
        self.watch = ()
        self.dyn = None
        self.params = ()      # parameters that say what the copy shall have instead
        self.elems = {}       # container field -> values stored as its elements
        self.fills = {}       # local container -> values put into it
        self.copies = {}      # (line) -> (source start, target start, length, source) of array copies

    def track(self, path, typ):
        return path[0] == "v"

    def may_throw(self, node, targets, st, fr):
        return False

    def ev(self, e, st, fr, xs):
        if e[0] == "dpc":
            r = self.ev(e[3], st, fr, xs)
            if self.dyn is not None:
                # the dynamic class of one value is known
                r = [(NUL if v == self.dyn[0] and not self.db.isa(self.dyn[1], e[2]) else v, s) for v, s in r]
            return r
        return super().ev(e, st, fr, xs)

    def call_relevant(self, n):
        return True

    def inline(self, fn, node, st, fr):
        if fn.cls and (self.db.isa(self.cls, fn.cls) or self.dyn is not None and self.db.isa(self.dyn[1], fn.cls)) and fn.qn != "LuceneObject::clone":
            if node[3] is None or fn.name == "clone":
                return True
            return not fn.static and fn.body is not None and len(list(walk(fn.body))) < 400
        return False

    def result(self, e, key, rp, vs, st, fr):
        if name_of(key) == "LuceneObject::clone" or name_of(key) == "LuceneObject::shared_from_this":
            return vs[0] if vs else self.site(e, fr)
        v = ("op", "call:" + name_of(key), rp if rp is not None else ("none",)) + tuple(vs)
        if depth_of(v) > 5:
            return self.site(e, fr)
        return v

    def truth(self, c, v, st, fr):
        if self.value_truth(v, st) is None and v[0] == "p" and v[1][0] == "f" and v[1][1] == ("this",):
            return [st.fact(("t", v), True)], [st.fact(("t", v), False)]
        return super().truth(c, v, st, fr)

    def note(self, st, path, vals, whole):
        # path: location on the copy
        if path[0] == "i":
            while path[0] == "i":
                path = path[1]
            if path[0] == "f" and root(path) != ("this",):
                self.elems.setdefault(path[2], set()).update(vals)
            whole = False
        if path[0] != "f" or root(path) == ("this",):
            return st
        r = path
        while r[1] != root(path):
            r = r[1]
        if r[0] != "f":
            return st
        fld = r[2]
        me = ("f", ("this",), fld)
        dep = any(mentions_path(v, me) for v in vals) or any(mentions_path(w, me) for v in vals for k, ws in self.fills.items() if v == k or contains(v, k) for w in ws)
        if dep:
            self.deps[fld] = True
        if whole and r == path:
            if vals and vals[0] == ("p", me):
                st = st.a(st.auto | {(fld, "share")})
            else:
                st = st.a(frozenset(x for x in st.auto if x != (fld, "share")))
            st = st.a(frozenset(x for x in st.auto if x[0] != "last" or x[1] != fld) | {(fld, "set")})
            if fld in self.watch:
                st = st.a(st.auto | {("last", fld, vals[0] if vals else None)})
        elif dep:
            st = st.a(st.auto | {(fld, "set")})
        return st

    def on_assign(self, path, val, st, node, fr):
        return self.note(st, path, [val], True)

    def pre_call(self, node, key, rp, vs, st, fr):
        if rp is not None and isinstance(rp, tuple) and rp and rp[0] in ("v", "op", "nn", "site") and name_of(key).split("::")[-1] in ("add", "put", "addAll", "push_back", "insert"):
            self.fills.setdefault(rp, set()).update(vs)
        if rp is not None and isinstance(rp, tuple) and rp and rp[0] == "f":
            if name_of(key).split("::")[-1] not in ("begin", "end", "size", "get", "empty"):
                st = self.note(st, rp, list(vs), name_of(key).endswith("::newInstance"))
                if name_of(key).split("::")[-1] in ("add", "put") and root(rp) != ("this",) and vs:
                    self.elems.setdefault(rp[2], set()).add(vs[-1])
        if name_of(key) == "MiscUtils::arrayCopy" and len(vs) == 5 and fr.fn.cls is not None and (self.db.isa(self.cls, fr.fn.cls) or self.dyn is not None and self.db.isa(self.dyn[1], fr.fn.cls)):
            self.copies[node[1], fr.fn.qn] = vs
            st = st.a(st.auto | {("from", vs[1])})
        # an array of the copy is handed to a copying helper
        for i, v in enumerate(vs):
            for p in paths_in(v):
                if p[0] == "f" and root(p) != ("this",) and root(p)[0] in ("nn", "v"):
                    others = [w for j, w in enumerate(vs) if j != i]
                    me = ("f", ("this",), p[2])
                    if any(mentions_path(w, me) for w in others):
                        self.deps[p[2]] = True
        return st

    def on_new(self, e, vs, st, fr, xs):
        c = e[2]
        if c in self.db.classes and self.db.isa(c, self.cls):
            for f in self.db.ctors_run(e):
                for fld, ps in ctor_fields(f).items():
                    me = ("f", ("this",), fld)
                    if ps is None:
                        continue
                    given = [vs[i] for i in ps if i < len(vs)]
                    own = any(any(mentions_path(v, ("p", ("v", q, 0))) or mentions_path(v, ("v", q, 0)) for q in self.params) for v in given)
                    if own or any(mentions_path(v, me) for v in given) or any(v == ("p", ("this",)) or fld in self.conts and mentions_path(v, me) for v in vs):
                        st = st.a(st.auto | {(fld, "set")})
                        self.deps[fld] = True
                    if len(given) == 1 and given[0] == ("p", me):
                        st = st.a(st.auto | {(fld, "share")})
        return [(("nn", id(e), fr.id), st)]


def contains(v, k):
    return isinstance(v, tuple) and (v == k or any(contains(x, k) for x in v))


def paths_in(v):
    if not isinstance(v, tuple):
        return
    if v and v[0] == "f" and len(v) == 3:
        yield v
    for x in v:
        if isinstance(x, tuple):
            yield from paths_in(x)


def mentions_path(v, p):
    if v == p:
        return True
    if isinstance(v, tuple):
        return any(mentions_path(x, p) for x in v)
    return False


def ctor_fields(f, seen=()):
    """field -> indices of the constructor parameters its value depends on (through helpers and base constructors)"""
    d = db()
    out = {}
    if f.key in seen:
        return out
    idx = {p[0]: i for i, p in enumerate(f.params)}

    def uses(n):
        return [idx[x[2]] for x in walk(n) if x[0] == "var" and x[2] in idx]

    def add(fld, u):
        out[fld] = out.get(fld, []) + u

    def sub(t, args):
        for fld, ps in ctor_fields(t, seen + (f.key,)).items():
            add(fld, [u for p in ps if p < len(args) for u in uses(args[p])])
    for i in f.inits:
        if i[0] == "m" and is_node(i[2]):
            add(i[1], uses(i[2]))
        elif i[0] in ("b", "d") and is_node(i[2]) and i[2][0] == "ctor":
            t = d.fns.get(i[2][3])
            if t is not None:
                sub(t, i[2][4])
    if f.body:
        for n in walk(f.body):
            if n[0] == "asg" and n[3][0] == "field" and n[3][2][0] == "this":
                add(n[3][3], uses(n[4]))
            if n[0] == "call" and n[3] is not None and n[3][0] == "field" and n[3][2][0] == "this":
                add(n[3][3], [u for a in n[4] for u in uses(a)])
            if n[0] == "call" and n[3] is not None and n[3][0] == "this":
                for t in d.targets(n, f.cls):
                    sub(t, n[4])
    return out


def coverage(f, watch=()):
    sim = CloneSim(f.cls)
    sim.watch = watch
    env = {}
    if len(f.params) != 1 or f.params[0][1] != "P<LuceneObject>":
        sim.params = [p[0] for p in f.params]
    elif f.params:
        env[("v", f.params[0][0], 0)] = NUL
    o = sim.run(f, auto=frozenset(), env=env)
    out = []
    for v, x in o.R:
        if v == NUL:
            continue
        nulls = {p[1][2] for (k, p), t in ((k, t) for k, t in x.facts.items() if len(k) == 2 and k[0] == "t") if t is False and p[0] == "p" and p[1][0] == "f" and p[1][1] == ("this",)}
        out.append(x.auto | {(n, k) for n in nulls for k in ("set", "null")})
    return out, sim
