"""Guard-before-action typestate: on every path of an entry point the guard is called before any guarded action."""
from .sim import Sim
from .db import name_of
from .equality import root


class GuardSim(Sim):
    steps_cap = 60000
    cap = 200

    def __init__(self, guard, event, cls=None, noinline=(), stop=True, follow=None):
        super().__init__()
        self.guard = guard; self.event = event; self.cls = cls; self.bad = {}
        self.noinline = noinline; self.stop = stop; self.follow = follow

    def may_throw(self, node, targets, st, fr):
        return False

    def call_relevant(self, n):
        return True

    slicing = False

    def inline(self, fn, node, st, fr):
        if fn.name in self.noinline or st.auto:
            return False
        if self.follow is not None and self.follow(fn):
            return True
        return node[0] == "call" and node[3] is not None and node[3][0] == "this"

    def pre_call(self, node, key, rp, vs, st, fr):
        if self.guard(node, key, rp, vs, st, fr):
            return st.a(True)
        if not st.auto:
            e = self.event(node, key, rp, vs, st, fr)
            if e:
                self.bad.setdefault((fr.fn.file, node[1], fr.fn.qn, e), 1)
        return st

    def on_assign(self, path, val, st, node, fr):
        if not st.auto and self.asg_event(path, fr):
            self.bad.setdefault((fr.fn.file, node[1], fr.fn.qn, "assigns " + path[2]), 1)
        return st

    def asg_event(self, path, fr):
        return False


class FieldGuardSim(GuardSim):
    """any use of the object's own parts is a guarded action"""

    def asg_event(self, path, fr):
        return path[0] == "f" and root(path) == ("this",)


def field_call(node, key, rp, vs, st, fr, harmless=()):
    if rp is not None and isinstance(rp, tuple) and rp and rp[0] == "f" and root(rp) == ("this",):
        q = name_of(key)
        if q.startswith(("std::", "boost::", "Synchronize", "LuceneSync")):
            return None
        if q.split("::")[-1] in harmless:
            return None
        return "calls " + q
    return None
