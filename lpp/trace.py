"""Sequences of named events along every path of a function (helpers of the same class followed)."""
from .elems import ElemSim
from .sim import Sim
from .sym import SymSim
from .db import name_of


class TraceSim(ElemSim):
    """auto is the tuple of events so far; an event whose call failed is recorded as 'name!'"""
    cap = 300
    slicing = True
    maxlen = 14

    def __init__(self, event, follow=None, values=False, assign_event=None, nothrow=()):
        super().__init__()
        self.event = event; self.follow = follow; self.values = values; self.aev = assign_event; self.nothrow = nothrow

    def call_relevant(self, n):
        return True

    def may_throw(self, node, targets, st, fr):
        if node[0] == "call" and name_of(node[2]) in self.nothrow:
            return False
        return super().may_throw(node, targets, st, fr)

    def inline(self, fn, node, st, fr):
        if self.follow is not None:
            r = self.follow(fn, node, fr)
            if r is not None:
                return r
        return node[0] == "call" and fn.cls is not None and fr.fn.cls is not None and \
            (self.db.isa(fr.cls or fr.fn.cls, fn.cls)) and node[3] is not None and node[3][0] == "this"

    def keep(self, c, v, fr):
        return True

    def rec(self, st, e):
        a = st.auto
        if len(a) >= self.maxlen or a[-1:] == (e,) or (e in a and len(a) > 8):
            return st
        return st.a(a + (e,))

    def on_call(self, node, key, rp, vs, st, fr, xs):
        e = self.event(node, key, rp, vs, st, fr)
        if e is not None:
            ts = self.targets(node, None, rp, st, fr)
            if self.may_throw(node, ts, st, fr):
                xs.append((self.anyexc(node, key, fr), self.rec(st, e + "!")))
            st = self.age(st, self.site(node, fr))
            st = self.havoc(node, ts, st, fr)
            return [(self.result(node, key, rp, vs, st, fr), self.rec(st, e))]
        return super().on_call(node, key, rp, vs, st, fr, xs)

    def on_assign(self, path, val, st, node, fr):
        if self.aev is not None:
            e = self.aev(path, val, st, node, fr)
            if e is not None:
                st = self.rec(st, e)
        return st


def fn(d, qn, nparams=None, pick=None):
    fs = [f for f in d.fns.values() if f.qn == qn and f.body is not None and (nparams is None or len(f.params) == nparams) and (pick is None or pick(f))]
    return fs[0] if fs else None
