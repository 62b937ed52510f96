"""Loops over collections: an element of a collection is a value, so 'every element was handled' can be decided."""
from .sym import SymSim
from .sim import Sim
from .db import name_of

CONTS = ("Collection", "HashSet", "HashMap", "Set", "Map", "WeakHashMap")


def is_cont(t):
    return t.startswith(tuple(c + "<" for c in CONTS))


class ElemSim(SymSim):
    """values: ("u","it",C) an element (or iterator) of C, ("u","end",C), ("u","size",C)"""
    steps_cap = 200000
    cap = 400
    cur = None

    def may_throw(self, node, targets, st, fr):
        return Sim.may_throw(self, node, targets, st, fr)

    # -- what a checker overrides ---------------------------------------------------------------------------------
    def on_iter(self, C, st, node, fr):
        """a new element of C is taken up"""
        return st

    def on_iter_end(self, C, st, node, fr):
        """C has no further element"""
        return st

    def on_begin(self, C, st, node, fr):
        return st

    # -------------------------------------------------------------------------------------------------------------
    def pval(self, rp):
        return rp if rp and rp[0] == "u" else ("p", rp)

    def on_call(self, node, key, rp, vs, st, fr, xs):
        q = name_of(key)
        c, _, m = q.rpartition("::")
        if rp is not None and c in CONTS:
            C = self.cval(rp, st)
            if m == "begin":
                return [(("u", "it", C), self.on_begin(C, st, node, fr))]
            if m == "end":
                return [(("u", "end", C), st)]
            if m == "size":
                return [(("u", "size", C), st)]
        return None

    def cval(self, rp, st):
        v = st.env.get(rp) if rp and rp[0] in ("v", "f", "g", "i") else None
        if v is not None and v[0] != "p":
            return v
        if v is not None:
            return v[1]
        return rp

    def on_ctor(self, e, vs, st, fr, xs):
        if len(vs) == 1 and is_cont(e[2]):
            return [(vs[0], st)]
        return None

    def arith(self, op, a, b, e, fr):
        if a[:2] == ("u", "it"):
            return a
        return super().arith(op, a, b, e, fr)

    def ev(self, e, st, fr, xs):
        if e[0] == "idx":
            out = []
            for p, x in self.objpath(e[2], st, fr, xs):
                for v, y in self.ev(e[3], x, fr, xs):
                    C = self.cval(p, y)
                    path = ("i", p, v)
                    if any(t == ("loop", C) for t in (y.facts.get("loops") or ())):
                        out.append((("u", "it", C), y))
                    else:
                        out.append((self.rd(path, y), y))
            return out
        return super().ev(e, st, fr, xs)

    def fresh(self, C, st):
        el = ("u", "it", C)

        def has(v):
            return isinstance(v, tuple) and (v == el or any(has(x) for x in v if isinstance(x, tuple)))
        f = {k: v for k, v in st.facts.items() if not has(k)}
        return type(st)(st.env, f, st.locks, st.auto)

    def compare(self, c, a, b, st, fr):
        op = c[2]
        if op == "==":
            for u, w in ((a, b), (b, a)):
                if w[:2] == ("u", "end") and u[:2] == ("u", "it") and u[2] == w[2]:
                    C = w[2]
                    return ([self.on_iter_end(C, st, c, fr)], [self.on_iter(C, self.fresh(C, st), c, fr)])
        if op == "<" and b[:2] == ("u", "size"):
            C = b[2]
            s = self.fresh(C, st).fact("loops", frozenset((st.facts.get("loops") or frozenset()) | {("loop", C)}))
            return ([self.on_iter(C, s, c, fr)], [self.on_iter_end(C, st, c, fr)])
        return super().compare(c, a, b, st, fr)

    def iter_next(self, coll, var, st, fr):
        C = coll[1] if coll[0] == "p" else coll
        st = self.on_iter(C, self.on_begin_once(C, self.fresh(C, st), fr), None, fr)
        return st.w(("v", var[2], fr.id), ("u", "it", C))

    def on_begin_once(self, C, st, fr):
        return st

    def iter_end(self, coll, st, fr):
        C = coll[1] if coll[0] == "p" else coll
        return self.on_iter_end(C, st, None, fr)
