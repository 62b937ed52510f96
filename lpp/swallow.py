"""Exceptions caught are not lost: every handler leads to a throw (of the same or a translated error) on every path to
the function's exit, hands the exception object on, or is one of the confirmed places where the error is the answer."""
from .db import db, walk, name_of, is_node, kids
from .sim import Sim, NOEXC


class SwSim(Sim):
    focus = None
    cap = 300
    steps_cap = 3000000

    def track(self, path, typ):
        return path[0] == "v" and (typ in ("bool", "LuceneException", "LuceneException&") or path[1] in self.tested)

    tested = frozenset()
    dropped = frozenset()

    def field_relevant(self, qn, typ):
        return typ == "LuceneException"

    def call_relevant(self, n):
        if not super().call_relevant(n):
            return False
        if n[0] == "call" and n[2].startswith("LuceneException::"):
            return True
        ts = self.db.targets(n)
        if self.may_throw(n, ts, None, None):
            return True
        return any(is_node(a) and a[0] == "var" and a[3].startswith("LuceneException") for a in (n[4] if n[0] == "call" else n[3]))

    def on_catch(self, t, h, kind, st, fr):
        if fr.id == 0:
            return st.a(frozenset(st.auto | {id(h)}))
        return st

    def on_call(self, node, key, rp, vs, st, fr, xs):
        # the exception object is handed to somebody (stored in a merge, a status object, a handler)
        if id(node) in self.dropped and any(x.ret == "LuceneException" or x.ret.startswith("X<") for x in self.db.targets(node)):
            return None         # it makes an exception that nobody throws
        if any(v[0] == "exc" for v in vs) and not name_of(key).startswith(("LuceneException::", "StringUtils::")):
            st2 = st.a(frozenset())
            r = self.opaque(node, key, rp, vs, st2, fr, xs, self.targets(node, None, rp, st2, fr))
            return r
        return None

    def on_assign(self, path, val, st, node, fr):
        if val[0] == "exc" and path[0] == "f":
            return st.a(frozenset())
        # a flag set in a handler that the function returns is a deliberate answer, judged by the table
        return st


def swallowed():
    """[(fn, try-node, handler, exit line kinds)] handlers after which the function can return normally"""
    d = db()
    out = []
    nh = 0
    nf = 0
    for f in d.fns.values():
        if f.body is None or not f.file.startswith(("src/core", "src/contrib", "include", "src/core/include")):
            continue
        hs = []
        for n in walk(f.body):
            if n[0] == "try":
                for h in n[3]:
                    hs.append((n, h))
        if not hs:
            continue
        nf += 1
        nh += len(hs)
        sim = SwSim()
        sim.tested = tested_handles(f)
        sim.dropped = {id(n[2]) for n in walk(f.body) if n[0] == "expr" and is_node(n[2]) and n[2][0] == "call"}
        o = sim.run(f, auto=frozenset())
        lost = set()
        for v, x in o.R:
            lost |= x.auto
        for t, h in hs:
            if id(h) in lost:
                out.append((f, t, h))
    memo = {}
    for f, t, h in out:
        if f.key not in memo:
            memo[f.key] = cleans_up(d, f)
    return [x for x in out if not memo[x[0].key]], nh, nf


class AfterSim(SwSim):
    target = None

    def on_call(self, node, key, rp, vs, st, fr, xs):
        if node[0] == "call" and any(x.key == self.target for x in self.db.targets(node)):
            st = st.a(frozenset(st.auto | {"called"}))
            return self.opaque(node, key, rp, vs, st, fr, xs, self.targets(node, None, rp, st, fr))
        return None

    def on_catch(self, t, h, kind, st, fr):
        return st

    def on_assign(self, path, val, st, node, fr):
        return st


def cleans_up(d, f):
    """is the function an internal helper that is only called where its caller goes on to raise an error in any case?"""
    if f.acc == "public" or f.kind in ("ctor", "dtor"):
        return False
    cs = d.callers(f.key)
    if not cs:
        return False
    for c in cs:
        g = d.fns[c]
        if g.body is None or g.file != f.file or g.key == f.key:
            return False
        sim = AfterSim()
        sim.target = f.key
        sim.tested = tested_handles(g)
        o = sim.run(g, auto=frozenset())
        if any("called" in x.auto for v, x in o.R):
            return False
    return True


def tested_handles(f):
    """local handles whose being set is itself a condition (if (os) ...)"""
    from .sim import atoms
    out = set()
    for n in walk(f.body):
        c = n[2] if n[0] in ("if", "while", "cond") else None
        if is_node(c):
            for a in atoms(c):
                while a[0] == "call" and a[3] is not None and not a[4]:
                    a = a[3]
                if a[0] == "var" and a[3][:2] == "P<":
                    out.add(a[2])
    return frozenset(out)


def trycalls(t):
    s = set()
    for n in walk(t[2]):
        if n[0] == "call":
            s.add(name_of(n[2]).split("::")[-1])
        elif n[0] == "new":
            s.add(n[2])
    return s
