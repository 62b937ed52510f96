"""Symbolic value tracking on top of the path-sensitive interpreter: integers, booleans and handles keep symbolic values."""
from .sim import Sim, St, depth_of, VOID
from .db import walk

INTS = ("int", "long", "uint", "ulong", "short", "char", "uchar", "int32_t", "int64_t", "size_t", "uint8_t", "uint32_t",
        "unsigned int", "unsigned long", "signed char", "unsigned char", "long long", "bool")


def isint(t):
    t = t.replace("const ", "").strip("& ")
    return t in INTS


def flat(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from flat(x)


def slice_vars(fns, seeds, fields=()):
    """names of locals that flow (without regard to order) into the seed expressions or the named fields"""
    rel = set()
    for e in seeds:
        for y in walk(e):
            if y[0] == "var":
                rel.add(y[2])
    n = -1
    while n != len(rel):
        n = len(rel)
        for f in fns:
            for x in walk(f.body):
                src = None
                if x[0] == "decl" and x[2] in rel:
                    src = x[4]
                elif x[0] == "asg" and (x[3][0] == "var" and x[3][2] in rel or x[3][0] == "field" and x[3][3] in fields):
                    src = x[4]
                if src is not None:
                    for y in walk(src):
                        if y[0] == "var":
                            rel.add(y[2])
    return rel


def pdepth(p):
    n = 0
    while isinstance(p, tuple) and len(p) > 1 and p[0] in ("f", "i", "p"):
        p = p[1]
        n += 1
    return n


class SymSim(Sim):
    symbolic = True
    slicing = False
    steps_cap = 20000
    cap = 150
    floats = False

    def may_throw(self, node, targets, st, fr):
        return False

    def call_relevant(self, n):
        return True

    def track(self, path, typ):
        if path[0] == "v":
            return True
        return path[0] == "f" and (isint(typ) or typ[:2] in ("P<", "W<") or (self.floats and typ in ("double", "float")))

    def inline(self, fn, node, st, fr):
        return node[0] == "call" and node[3] is not None and node[3][0] == "this" and fn.cls is not None

    def age(self, st, sid):
        """earlier results of the same program point are different values"""
        def ren(v, new):
            if v == sid:
                return new
            if isinstance(v, tuple):
                return tuple(ren(x, new) if isinstance(x, tuple) else x for x in v)
            return v

        def has(v):
            return v == sid or (isinstance(v, tuple) and any(has(x) for x in v if isinstance(x, tuple)))
        ch = sorted((k for k, v in st.env.items() if has(v)), key=repr)
        fc = [k for k in st.facts if has(k)]
        if not ch and not fc:
            return st
        e = dict(st.env)
        if ch:
            new = ("u", "old", repr(ch[0]))
            i = 0
            while any(new in flat(v) for v in st.env.values()):
                i += 1
                new = ("u", "old", repr(ch[0]), i)
            for k in ch:
                v = ren(e[k], new)
                e[k] = v if i < 3 else ("u", "lost", repr(k))
        f = {k: v for k, v in st.facts.items() if not has(k)}
        return St(e, f, st.locks, st.auto)

    def limit(self, sts):
        if len(sts) <= self.cap:
            return sts
        self.capped += 1
        seen = {}
        for s in sts:
            k = (s.auto, s.locks)
            t = seen.get(k)
            if t is None:
                seen[k] = s
                continue
            env = {}
            for p in set(t.env) | set(s.env):
                a, b = t.env.get(p, ("p", p)), s.env.get(p, ("p", p))
                env[p] = a if a == b else ("u", "join", repr(p))
            facts = {p: v for p, v in t.facts.items() if s.facts.get(p) == v}
            seen[k] = St(env, facts, s.locks, s.auto)
        return list(seen.values())

    def assign(self, path, val, st, node, fr, typ, isdecl=False):
        if val[0] == "p" and pdepth(val[1]) > 4:
            val = ("u", "deep", repr(path))
            st = self.age(st, val)
        return super().assign(path, val, st, node, fr, typ, isdecl)

    def opaque(self, e, key, rp, vs, st, fr, xs, ts):
        st = self.age(st, self.site(e, fr))
        return super().opaque(e, key, rp, vs, st, fr, xs, ts)

    def eq(self, a, b, st):
        """are the two values known to be equal on this path?"""
        if a == b:
            return True
        k = ("==", min(a, b, key=repr), max(a, b, key=repr))
        return st.facts.get(k) is True

    def compare(self, c, a, b, st, fr):
        t, f = super().compare(c, a, b, st, fr)
        if c[2] == "==" and t and f:
            key = ("==", min(a, b, key=repr), max(a, b, key=repr))
            t = [x.fact(key, True) for x in t]
        return t, f
