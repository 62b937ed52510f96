"""Acquire/release balance over all paths, with automatic treatment of functions that hand a resource on.

A function that can leave an acquire without its release (or the reverse) on some exit is 'unbalanced'; its callers are
analysed with it inlined.  A violation is an unbalanced function that nobody is left to balance: a public entry point or
a function without callers."""
from .db import db, name_of, AnalysisError
from .sim import Sim, NUL


class PairSim(Sim):
    def __init__(self, spec, unbalanced):
        super().__init__()
        self.spec = spec
        self.unb = unbalanced
        self.stable_fields = spec.stable
        self.calm = frozenset(spec.calm)

    def is_handle(self, typ):
        return False

    def track(self, path, typ):
        if path[0] == "v":
            return typ in ("bool", "LuceneException")
        if path[0] == "f":
            return path[2] in self.spec.track_fields
        return False

    def may_throw(self, node, targets, st, fr):
        if node[0] == "call" and name_of(node[2]) in self.spec.nothrow:
            return False
        return super().may_throw(node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        return (fn.key in self.unb or fn.qn in self.spec.always) and fn.key not in self.spec.primkeys

    def inline_many(self, ts, node, st, fr):
        return any(t.key in self.unb and t.key not in self.spec.primkeys for t in ts)

    def after_call(self, node, key, rp, vs, st, fr):
        eff = self.spec.effects.get(name_of(key))
        if not eff:
            return st
        a = list(st.auto)
        for what, d in eff:
            for i, (nm, stack) in enumerate(a):
                if nm == what:
                    if d > 0:
                        a[i] = (nm, stack + ((fr.fn.file, node[1], fr.fn.qn),))
                    elif stack and stack[-1] != "-":
                        a[i] = (nm, stack[:-1])
                    else:
                        a[i] = (nm, (stack + ("-",))[:3])
        return st.a(tuple((n, s[:4]) for n, s in a))

    def on_assign(self, path, val, st, node, fr):
        if path[0] == "f":
            for fld, v, what in self.spec.resets:
                if path[2] == fld and (val == v):
                    st = st.a(tuple((n, () if n == what else s) for n, s in st.auto))
        return st

    def on_branch(self, c, v, t, f, fr):
        if v[0] == "p" and v[1][0] == "f":
            for fld, val, what in self.spec.resets:
                if val == NUL and v[1][2] == fld:
                    f = [x.a(tuple((n, () if n == what else s) for n, s in x.auto)) for x in f]
        return t, f


class Spec:
    def __init__(self, effects, nothrow=(), track_fields=(), resets=(), stable=(), env=None, calm=(), always=()):
        self.effects = effects
        self.nothrow = set(nothrow)
        self.track_fields = set(track_fields)
        self.resets = resets
        self.stable = frozenset(stable)
        self.env = env or {}
        self.calm = calm
        self.always = set(always)
        self.names = sorted({w for e in effects.values() for w, d in e})
        d = db()
        self.primkeys = {f.key for q in effects for f in d.byqn.get(q, ())}


def check(spec, res, label, exempt=()):
    d = db()
    prim = spec.primkeys
    missing = [q for q in spec.effects if not d.byqn.get(q)]
    if missing:
        res.errors.append("analysis broken: no definition of %s" % missing)
    # functions with events, directly
    direct = {}
    sites = 0
    for f in d.fns.values():
        if f.key in prim:
            continue
        n = sum(1 for c in d.calls(f) if c[0] == "call" and name_of(c[2]) in spec.effects)
        if n:
            direct[f.key] = n
            sites += n
    unb = {}
    todo = list(direct)
    done = {}
    while todo:
        k = todo.pop(0)
        f = d.fns[k]
        if f.body is None:
            continue
        sim = PairSim(spec, unb)
        try:
            o = sim.run(f, auto=tuple((n, ()) for n in spec.names), env=spec.env)
        except AnalysisError:
            # a caller that cannot be followed with the unbalanced callee inlined does not balance it
            ks = [t.key for c in d.calls(f) if c[0] == "call" for t in d.targets(c, f.cls) if t.key in unb]
            if not ks:
                raise
            for q in ks:
                for how, n, s in sorted(unb[q], key=repr)[:3]:
                    res.bad("%s/%s/unbalanced" % (d.fns[q].qn, n), "%s:%d %s leaves %s unbalanced on a path ending in %s and its caller %s is not seen to balance it" % (d.fns[q].file, d.fns[q].line, d.fns[q].qn, n, how, f.qn))
            done[k] = set()
            continue
        res.count("paths states explored", sim.steps)
        bad = set()
        for v, x in o.R:
            for n, s in x.auto:
                if s:
                    bad.add(("normal return", n, s))
        for e, x in o.X:
            for n, s in x.auto:
                if s:
                    bad.add(("exception", n, s))
        old = done.get(k)
        done[k] = bad
        if bad and k not in unb:
            unb[k] = bad
            for c in d.callers(k):
                if c not in todo:
                    todo.append(c)
        elif bad != old and bad:
            unb[k] = bad
        res.count("functions simulated")
    roots = 0
    for k in done:
        f = d.fns[k]
        root = f.acc == "public" or not d.callers(k)
        if root:
            roots += 1
            res.ob("%s: %s balanced on every exit" % (f.qn, label))
        if root and k in unb and f.qn not in exempt:
            sim = PairSim(spec, unb); sim.origins = True
            try:
                o = sim.run(f, auto=tuple((n, ()) for n in spec.names), env=spec.env)
            except AnalysisError:
                for how, n, s in sorted(unb[k], key=repr)[:3]:
                    res.bad("%s/%s/%s" % (f.qn, n, how.replace(" ", "_")), "%s:%d %s leaves %s unbalanced on a path ending in %s" % (f.file, f.line, f.qn, n, how))
                continue
            det = set()
            for v, x in o.R:
                det |= {("a normal return", n, s) for n, s in x.auto if s}
            for e, x in o.X:
                det |= {("an exception from " + (e[1][1:].replace("<", " in ") if e[-1][0] == "@" else "a throw of " + e[0]), n, s) for n, s in x.auto if s}
            for how, n, s in sorted(det, key=repr)[:12]:
                if s[-1] == "-":
                    res.bad("%s/%s/over-release/%s" % (f.qn, n, how.replace(" ", "_")), "%s:%d %s releases %s more often than it acquired it on a path ending in %s" % (f.file, f.line, f.qn, n, how))
                else:
                    res.bad("%s/%s/%s/%s" % (f.qn, n, s[-1][2], how.replace(" ", "_")), "%s:%d %s: %s acquired at %s:%d (in %s) is not released on a path ending in %s" % (f.file, f.line, f.qn, n, s[-1][0], s[-1][1], s[-1][2], how))
    return sites, roots, unb
