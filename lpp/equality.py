"""Path-sensitive field coverage of equals(): which fields were found equal on every path that answers true."""
from .db import db, walk, name_of, is_node
from .sim import Sim, TRUE, FALSE, NUL, mentions, depth_of

ROOT_O = ("p", ("v", "other@p0", 0))
# calls whose result is the whole value of what they are called on
WHOLE = ("get", "find_first", "find_next", "memcmp", "wmemcmp", "memcmp", "doubleToIntBits", "doubleToRawIntBits", "doubleToLongBits", "doubleToRawLongBits", "intBitsToDouble", "c_str", "data", "lock", "ptr", "equals", "operator==", "operator*", "operator->", "newInstance", "str")
LENGTHS = ("size", "length", "getLength")


def root(path):
    while isinstance(path, tuple) and path and path[0] in ("f", "i"):
        path = path[1]
    return path


class EqSim(Sim):
    steps_cap = 200000
    symbolic = True

    def __init__(self, cls, pvid):
        super().__init__()
        self.cls = cls
        self.other = ("v", pvid, 0)
        self.elem = set()
        self.zero = set()       # fields whose elements were compared with zero
        self.reads = set()

    def track(self, path, typ):
        return path[0] == "v"

    def may_throw(self, node, targets, st, fr):
        return False

    def ev(self, e, st, fr, xs):
        if e[0] == "dpc":
            return self.ev(e[3], st, fr, xs)
        return super().ev(e, st, fr, xs)

    def call_relevant(self, n):
        return True

    def inline(self, fn, node, st, fr):
        if fn.cls is None or not self.db.isa(self.cls, fn.cls):
            return fn.kind == "func" and fn.file.startswith("src/") and len(fn.params) >= 2
        if node[3] is not None and node[3][0] == "this" and fn.kind == "method":
            return len(fn.params) >= 1
        return fn.static and len(fn.params) >= 1 and fn.cls == self.cls

    def result(self, e, key, rp, vs, st, fr):
        v = ("op", "call:" + name_of(key), rp if rp is not None else ("none",)) + tuple(vs)
        if depth_of(v) > 6:
            return self.site(e, fr)
        return v

    def fieldsof(self, v, out_m, out_t, seen=0):
        """fields of this / of the other object that a value depends on, with a flag: whole value, length or element"""
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "f" and len(v) == 3 and isinstance(v[2], str):
            r = root(v)
            b = v
            while b[1] != r:
                b = b[1]
            how = "elem" if False else "full"
            p = v
            if r == ("this",):
                out_m.add((b[2] if b[0] == "f" else None, how))
            elif r == self.other:
                out_t.add((b[2] if b[0] == "f" else None, how))
            for x in v[1:]:
                if isinstance(x, tuple) and x and x[0] == "i":
                    self.fieldsof(x, out_m, out_t)
            return
        if v[0] == "i":
            m, t = set(), set()
            self.fieldsof(v[1], m, t)
            out_m |= {(f, "elem") for f, h in m}
            out_t |= {(f, "elem") for f, h in t}
            return
        if v[0] == "op" and v[1].startswith("call:"):
            qn = v[1][5:]
            nm = qn.split("::")[-1]
            rp = v[2]
            rr = root(rp)
            m, t = set(), set()
            if rp == ("this",) or rp == self.other:
                (m if rp == ("this",) else t).update(getter_fields(self.cls, nm))
            else:
                self.fieldsof(rp, m, t)
            for x in v[3:]:
                self.fieldsof(x, m, t)
            if nm in LENGTHS and rp not in (("this",), self.other):
                m = {(f, "len") for f, h in m}; t = {(f, "len") for f, h in t}
            elif nm in ("begin", "end"):
                m = {(f, "elem") for f, h in m}; t = {(f, "elem") for f, h in t}
            elif rp not in (("this",), self.other) and nm not in WHOLE and (m or t):
                # some function of the value: equal results do not mean equal values
                m = {(f, "part") for f, h in m}; t = {(f, "part") for f, h in t}
            out_m |= m; out_t |= t
            return
        for x in v[1:]:
            if isinstance(x, tuple):
                self.fieldsof(x, out_m, out_t)

    def mirror(self, v):
        if v == ("this",):
            return self.other
        if v == self.other:
            return ("this",)
        return tuple(self.mirror(x) for x in v) if isinstance(v, tuple) else v

    def eqfields(self, *vals):
        m, t = set(), set()
        for v in vals:
            self.fieldsof(v, m, t)
        fm = {f for f, h in m} & {f for f, h in t}
        out = set()
        for f in fm:
            if f is None:
                continue
            hs = {h for g, h in m | t if g == f}
            h = "full" if hs == {"full"} else ("part" if "part" in hs else "len" if "len" in hs else "elem")
            if h == "elem":
                self.elem.add(f)
            out.add((f, h))
        return out

    def is_identity(self, a, b):
        return {a, b} == {("p", ("this",)), ("p", self.other)}

    def compare(self, c, a, b, st, fr):
        if c[2] != "==":
            return super().compare(c, a, b, st, fr)
        t, f = super().compare(c, a, b, st, fr)
        if {a[0], b[0]} & {"k"}:
            m, o = set(), set()
            self.fieldsof(a, m, o); self.fieldsof(b, m, o)
            z = {g for g, h in m | o if h == "elem" and (a == ("k", 0) or b == ("k", 0))}
            self.zero |= z
            if z:
                f = [x.a(x.auto | {("differ", g) for g in z}) for x in f]
        if self.is_identity(a, b):
            t = [x.a(x.auto | {("identity", "")}) for x in t]
        else:
            fs = self.eqfields(a, b)
            f = [x.a(x.auto | {("differ", g) for g, h in fs if h == "elem"}) for x in f]
            if fs:
                t = [x.a(x.auto | fs) for x in t]
        return t, f

    def on_branch(self, c, v, t, f, fr):
        if v[0] == "op" and v[1].startswith("call:"):
            nm = v[1].split("::")[-1].replace("call:", "")
            if "equal" in nm.lower() or nm in ("operator==",):
                if nm == "equals" and v[2] == ("this",):
                    t = [x.a(x.auto | {("identity", "")}) for x in t]
                elif nm == "isNull":
                    pass
                elif "equalTypes" in nm:
                    t = [x.a(x.auto | {("type", "")}) for x in t]
                else:
                    fs = self.eqfields(*v[2:])
                    if fs:
                        t = [x.a(x.auto | fs) for x in t]
            if nm == "isNull":
                for y in v[3:]:
                    if y[0] == "p" and y[1][0] == "f":
                        t = [x.a(x.auto | {(y[1], "null")}) for x in t]
        # both null counts as equal
        if v[0] == "p":
            f = [x.a(x.auto | {(v[1], "null")}) for x in f] if v[1][0] == "f" else f
        return t, f

    def truth(self, c, v, st, fr):
        b = self.value_truth(v, st)
        if b is None and v[0] == "p" and v[1][0] == "f":
            t, f = self.on_branch(c, v, [st.fact(("t", v), True)], [st.fact(("t", v), False)], fr)
            return t, f
        return super().truth(c, v, st, fr)

    def call1(self, e, key, qn, rp, vs, st, fr, xs):
        if qn == "LuceneObject::equals" and rp == ("this",):
            return [(TRUE, st.a(st.auto | {("identity", "")})), (FALSE, st)]
        return super().call1(e, key, qn, rp, vs, st, fr, xs)


_GET = {}


def getter_fields(cls, nm):
    """fields a getter of cls reads: the whole value if the method returns the field itself, else part of it"""
    if (cls, nm) in _GET:
        return _GET[cls, nm]
    d = db()
    out = set()
    for f in d.methods_named(cls, nm):
        whole = set()
        for v, x in Sim().run(f, auto=frozenset()).R if f.body is not None else ():
            if v[0] == "p" and v[1][0] == "f" and v[1][1] == ("this",):
                whole.add(v[1][2])
        rd = self_reads(cls, f)
        out |= {(x, "full" if whole == {x} else "part") for x in rd}
    _GET[cls, nm] = out
    return out


def self_reads(cls, f, seen=None):
    """fields of `this` read by method f of an object of class cls, through calls on this"""
    d = db()
    seen = seen if seen is not None else set()
    if f.key in seen:
        return set()
    seen.add(f.key)
    out = set()
    for n in d.nodes(f):
        if n[0] == "field" and n[2][0] == "this":
            out.add(n[3])
        if n[0] == "call" and n[3] is not None and n[3][0] == "this":
            for t in d.targets(n, cls):
                if t.name not in ("getClassName",):
                    out |= self_reads(cls, t, seen)
    return out


LOOPS = ("for", "while", "do")


def loops_of(f, d):
    """canonical element loops of f: (line, variable, 'up'/'down', first, bound, fields indexed by the variable); first and bound are IR or None"""
    decls, asgs = {}, {}
    for n in d.nodes(f):
        if n[0] == "decl" and len(n) > 4:
            decls[n[2]] = n[4]
    out = []
    for lp in d.nodes(f):
        if lp[0] not in LOOPS:
            continue
        inside = list(walk(lp))
        cond = lp[3] if lp[0] == "for" else lp[2]
        for v in {x[3][2] for x in inside if x[0] == "idx" and is_node(x[3]) and x[3][0] == "var"}:
            flds = {y[3] for x in inside if x[0] == "idx" and is_node(x[3]) and x[3][0] == "var" and x[3][2] == v for y in walk(x[2]) if y[0] == "field"}
            steps = [x for x in inside if x[0] == "un" and x[2] in ("pre++", "post++", "pre--", "post--") and is_node(x[3]) and x[3][0] == "var" and x[3][2] == v]
            steps += [x for x in inside if x[0] == "asg" and x[2] in ("+=", "-=") and is_node(x[3]) and x[3][0] == "var" and x[3][2] == v]
            if len(steps) != 1:
                continue
            first = decls.get(v)
            for n in d.nodes(f):
                if n[0] == "asg" and n[2] == "=" and is_node(n[3]) and n[3][0] == "var" and n[3][2] == v:
                    first = n[4] if n not in inside or lp[0] == "for" and any(n is y for y in walk(lp[2])) else None
            stp = steps[0]
            up = "+" in stp[2]
            if stp[0] == "asg" and stp[4] != ["int", stp[4][1], 1]:
                continue
            cs = [x for x in walk(cond) if is_node(x) and x[0] == "bin" and x[2] in ("<", "<=", ">", ">=", "!=") and any(y[0] == "var" and y[2] == v for y in walk(x[3]))] if is_node(cond) else []
            if len(cs) != 1 or first is None:
                continue
            c = cs[0]
            incond = any(stp is y for y in walk(cond))
            out.append((lp[1], v, "up" if up else "down", first, c, (stp[2] if incond else ""), flds))
    return out


def unc(e):
    while is_node(e) and e[0] == "cast":
        e = e[-1]
    return e


def partial(lp):
    """reason why a canonical loop visibly leaves out an element, or None"""
    line, v, way, first, c, incond, flds = lp
    first, bound = unc(first), unc(c[4])
    isint = lambda e: e[0] == "int"
    minus = lambda e: e[0] == "bin" and e[2] == "-" and isint(unc(e[4])) and unc(e[4])[2]
    if way == "up":
        if isint(first) and first[2] > 0 and not (incond.startswith("pre")):
            return "starts at element %d" % first[2]
        if minus(bound) and c[2] in ("<", "!=") and not incond:
            return "stops before the last element"
    else:
        low = bound[2] if isint(bound) else None
        if low is None:
            return None
        if not incond and (c[2] == ">" and low >= 0 or c[2] == ">=" and low >= 1):
            return "stops before the first element"
        if incond.startswith("pre") and (c[2] == ">" and low >= 0 or c[2] == ">=" and low >= 1):
            return "stops before the first element"
        if incond.startswith("post") and (c[2] == ">" and low >= 1 or c[2] == ">=" and low >= 2):
            return "stops before the first element"
        if not incond and minus(first) and minus(first) > 1 or incond and minus(first):
            return "starts before the last element"
    return None


def flows(f, d):
    """nodes whose value can flow into the result of f, indices of elements left out"""
    todo = [n[2] for n in d.nodes(f) if n[0] == "ret" and len(n) > 2 and is_node(n[2])]
    seen, out = set(), []

    def rec(e):
        if not is_node(e):
            if isinstance(e, list):
                for x in e:
                    rec(x)
            return
        out.append(e)
        if e[0] == "idx":
            rec(e[2])
            return
        if e[0] == "call" and name_of(e[2]).split("::")[-1] == "newInstance" or e[0] in ("ctor", "new"):
            return
        if e[0] == "var" and e[2] not in seen:
            seen.add(e[2])
            for n in d.nodes(f):
                if n[0] == "decl" and n[2] == e[2] and len(n) > 4:
                    rec(n[4])
                if n[0] == "asg" and is_node(n[3]) and n[3][0] == "var" and n[3][2] == e[2]:
                    rec(n[4])
        for x in e[2:]:
            rec(x)
    for e in todo:
        rec(e)
    return out


def coverage(f, cls=None):
    """-> list of (covered fields, ok) for each path on which equals answers true; and the set of elem-compared fields"""
    sim = EqSim(cls or f.cls, f.params[0][0])
    o = sim.run(f, auto=frozenset())
    paths = []
    for v, x in o.R:
        if v == FALSE:
            continue
        if v[0] == "op" or v[0] == "u":
            # an unresolved boolean expression returned as is
            t, g = sim.truth(["unk", 0], v, x, sim.fr0)
            paths += [y.auto for y in t]
        else:
            paths.append(x.auto)
    return paths, sim.elem, sim


def covered(auto, elem, other):
    d = db()
    arrays = {n for c in {f.rpartition("::")[0] for f in elem if f} for n, t, l, s in d.fields(c) if t.startswith("Array<")}
    out = {f for f in elem if f in arrays}     # compared element by element up to a length that is a field of its own
    nulls = {p for p, h in auto if h == "null"}
    for f, h in auto:
        if h == "full" or h == "len" and f in elem:
            out.add(f)
    for p in nulls:
        if p[1] == ("this",) and ("f", other, p[2]) in nulls:
            out.add(p[2])
    return out
