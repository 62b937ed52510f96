"""Whole-program database over the extracted facts: classes, overrides, call graph, effects."""
import collections
from . import extract as _ex

AnalysisError = _ex.AnalysisError


def kids(n):
    """child nodes of an IR node"""
    for c in n[1:]:
        if isinstance(c, list):
            if c and isinstance(c[0], str) and len(c) > 1 and isinstance(c[1], int) and not isinstance(c[1], bool):
                yield c
            else:
                yield from _kl(c)


def _kl(l):
    for c in l:
        if isinstance(c, list):
            if c and isinstance(c[0], str) and len(c) > 1 and isinstance(c[1], int) and not isinstance(c[1], bool):
                yield c
            else:
                yield from _kl(c)


def walk(n):
    """all IR nodes below n (pre-order), n included; does not enter lambdas' bodies separately"""
    if not isinstance(n, list):
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        k = list(kids(x))
        k.reverse()
        st.extend(k)


def is_node(n):
    return isinstance(n, list) and len(n) > 1 and isinstance(n[0], str) and isinstance(n[1], int)


def strip_type(t):
    """class named by a (smart) pointer / reference / value type"""
    t = t.rstrip("&* ")
    while t[:2] in ("P<", "W<") and t.endswith(">"):
        t = t[2:-1]
    return t


def name_of(key):
    return key.split("(", 1)[0]


class Fn:
    __slots__ = ("key", "qn", "cls", "name", "file", "line", "end", "params", "ret", "kind", "virt", "static", "acc",
                 "over", "inits", "body", "sig", "_calls", "narrow", "widen")

    def __init__(self, d):
        self.key = d["key"]; self.qn = d["qn"]; self.cls = d["cls"]; self.name = d["name"]
        self.file = d["file"]; self.line = d["line"]; self.end = d["end"]; self.params = d["params"]
        self.ret = d["ret"]; self.kind = d["kind"]; self.virt = d.get("virt", 0); self.static = d.get("static", 0)
        self.acc = d.get("acc", "none"); self.over = d.get("over", []); self.inits = d.get("inits", [])
        self.body = d["body"]; self.narrow = d.get("narrow", ()); self.widen = d.get("widen", ())
        self.sig = self.name + self.key[len(self.qn):]
        self._calls = None

    def __repr__(self):
        return "<%s>" % self.key

    def where(self, line=None):
        return "%s:%d" % (self.file, line or self.line)


class Cls:
    __slots__ = ("name", "file", "line", "abstract", "template", "bases", "fields", "methods", "subs", "mkeys")

    def __init__(self, d):
        self.name = d["name"]; self.file = d["file"]; self.line = d["line"]; self.abstract = d["abstract"]
        self.template = d["template"]; self.bases = d["bases"]
        self.fields = d["fields"]; self.methods = d["methods"]
        self.subs = []
        self.mkeys = {}
        for m in self.methods:
            self.mkeys[m[0][len(self.name) + 2:] if m[1] not in ("<ctor>", "<dtor>") else m[0]] = m


class DB:
    def __init__(self):
        facts, self.meta = _ex.extract()
        self.fns = {}          # key -> Fn
        self.dups = collections.defaultdict(list)
        self.classes = {}
        self.gvars = {}
        self.enums = {}
        self.units = len(facts) - 1
        for u in facts:
            for d in u["functions"]:
                f = Fn(d)
                if f.key in self.fns:
                    if self.fns[f.key].file != f.file or self.fns[f.key].line != f.line:
                        self.dups[f.key].append(f)
                    continue
                self.fns[f.key] = f
            for d in u["classes"]:
                c = Cls(d)
                if c.name not in self.classes or not c.template:
                    self.classes[c.name] = c
            for g in u["gvars"]:
                o = self.gvars.get(g[0])
                if o is None or (g[4] is not None and o[4] is None) or (g[6] and not o[6]):
                    self.gvars[g[0]] = g
            for e in u["enums"]:
                self.enums[e[0]] = e
        for c in self.classes.values():
            for b in c.bases:
                bn = b.split("<")[0] if b not in self.classes else b
                if bn in self.classes:
                    self.classes[bn].subs.append(c.name)
        self._sup = {}
        self._sub = {}
        self._impl = {}
        self._memo = {}
        self.byqn = collections.defaultdict(list)
        for f in self.fns.values():
            self.byqn[f.qn].append(f)
        self.mark_never()

    def mark_never(self):
        """after a call of a function that always throws, say so in the caller's tree: a throw of the same kind follows it"""
        never = {}

        def ends(s):
            if not is_node(s):
                return None
            if s[0] == "block":
                for x in s[2]:
                    r = ends(x)
                    if r is not None:
                        return r
                return None
            if s[0] == "if" and s[4] is not None:
                a = ends(s[3])
                return a if a is not None and ends(s[4]) is not None else None
            if s[0] == "expr" and is_node(s[2]):
                if s[2][0] == "throw":
                    return s[2]
                if s[2][0] == "call":
                    ts = self.targets(s[2])
                    if ts and all(x.key in never for x in ts):
                        return never[ts[0].key]
            return None
        new = True
        while new:
            new = False
            for f in self.fns.values():
                if f.key in never or f.body is None or f.body[0] != "block" or len(f.body[2]) > 12 or f.body[-1] is None:
                    continue
                r = ends(f.body)
                if r is not None and not any(n[0] in ("ret", "try", "goto") for n in walk(f.body)):
                    never[f.key] = r
                    new = True
        self.never = set(never)

        def fix(stmts):
            for i, s in enumerate(stmts):
                if is_node(s) and s[0] == "expr" and is_node(s[2]) and s[2][0] == "call":
                    ts = self.targets(s[2])
                    if ts and all(x.key in never for x in ts):
                        th = never[ts[0].key]
                        ty, val = th[2], th[3] if len(th) > 3 else None
                        if is_node(val) and val[0] == "ctor":
                            val = ["ctor", s[1], val[2], val[3], [a for a in val[4] if is_node(a) and not any(n[0] in ("var", "field", "this", "call") for n in walk(a))] if len(val) > 4 else []]
                        stmts[i] = ["block", s[1], [s, ["expr", s[1], ["throw", s[1], ty, val]]]]
        if never:
            names = {k for k in never}
            for f in self.fns.values():
                if f.body is None:
                    continue
                for n in list(walk(f.body)):
                    if n[0] == "block":
                        if any(is_node(s) and s[0] == "expr" and is_node(s[2]) and s[2][0] == "call" for s in n[2]):
                            fix(n[2])
                    elif n[0] == "if":
                        for j in (3, 4):
                            if is_node(n[j]) and n[j][0] == "expr":
                                l = [n[j]]; fix(l); n[j] = l[0]

    # -- classes --------------------------------------------------------------------------------------------------
    def supers(self, c):
        """all base classes of c in the repository, nearest first (c excluded)"""
        if c in self._sup:
            return self._sup[c]
        out = []
        self._sup[c] = out
        cl = self.classes.get(c)
        if cl:
            for b in cl.bases:
                b = b if b in self.classes else b.split("<")[0]
                if b in self.classes:
                    for x in [b] + self.supers(b):
                        if x not in out:
                            out.append(x)
        return out

    def subs(self, c):
        """c and all classes derived from it"""
        if c in self._sub:
            return self._sub[c]
        out = [c]
        i = 0
        while i < len(out):
            cl = self.classes.get(out[i])
            if cl:
                for s in cl.subs:
                    if s not in out:
                        out.append(s)
            i += 1
        self._sub[c] = out
        return out

    def isa(self, c, base):
        return c == base or base in self.supers(c)

    def fields(self, c, inherited=False, static=False):
        out = []
        for k in [c] + (self.supers(c) if inherited else []):
            cl = self.classes.get(k)
            if cl:
                out += [(k + "::" + f[0], f[1], f[2], f[5]) for f in cl.fields if static or f[5] == 0]
        return out

    def method(self, c, sig):
        """definition found by looking sig ('name(params)') up from class c through its bases"""
        for k in [c] + self.supers(c):
            f = self.fns.get(k + "::" + sig)
            if f:
                return f
        return None

    def methods_named(self, c, name):
        """resolved methods called `name` visible in c (nearest definitions), by signature"""
        seen = {}
        for k in [c] + self.supers(c):
            for f in self.byqn.get(k + "::" + name, ()):
                seen.setdefault(f.sig, f)
        return list(seen.values())

    def declares(self, c, name):
        cl = self.classes.get(c)
        return bool(cl) and any(m[1] == name for m in cl.methods)

    # -- dispatch -------------------------------------------------------------------------------------------------
    def impls(self, key):
        """definitions a virtual call to `key` may reach (class hierarchy analysis)"""
        r = self._impl.get(key)
        if r is not None:
            return r
        qn = name_of(key)
        c, _, n = qn.rpartition("::")
        sig = key[len(c) + 2:] if c else key
        out = []
        for k in self.subs(c) if c in self.classes else []:
            f = self.fns.get(k + "::" + sig)
            if f and f not in out:
                out.append(f)
        # the static class may itself inherit the definition
        if c and not self.fns.get(key):
            f = self.method(c, sig)
            if f and f not in out:
                out.append(f)
        self._impl[key] = out
        return out

    def targets(self, node, cls=None):
        """definitions that a call node may invoke.  cls: dynamic class of `this` if known (for calls on this)"""
        k = node[0]
        if k == "call":
            key, obj, fl = node[2], node[3], node[5]
            if fl == "v":
                c = None
                if cls is not None and obj is not None and obj[0] == "this":
                    sig = key[len(name_of(key).rpartition("::")[0]) + 2:]
                    f = self.method(cls, sig)
                    if f:
                        return [f]
                ot = strip_type(node[6]) if len(node) > 6 else ""
                decl = name_of(key).rpartition("::")[0]
                if ot in self.classes and ot != decl and self.isa(ot, decl):
                    sig = key[len(decl) + 2:]
                    out = []
                    for s in self.subs(ot):
                        f = self.fns.get(s + "::" + sig)
                        if f and f not in out:
                            out.append(f)
                    f = self.method(ot, sig)
                    if f and f not in out:
                        out.append(f)
                    return out
                return self.impls(key)
            f = self.fns.get(key)
            return [f] if f else []
        if k == "new":
            return self.ctors_run(node)
        if k == "ctor":
            f = self.fns.get(node[3])
            return [f] if f else []
        return []

    def ctors_run(self, node):
        c = node[2]
        out = []
        n = len(node[3])
        cl = self.classes.get(c)
        if cl:
            cs = [f for f in self.byqn.get(c + "::" + c.split("::")[-1], ()) if f.kind == "ctor" and len(f.params) >= n]
            if cs:      # trailing parameters may have defaults
                m = min(len(f.params) for f in cs)
                out += [f for f in cs if len(f.params) == m]
            if node[4] == "newLucene":
                f = self.method(c, "initialize()")
                if f:
                    out.append(f)
        return out

    def calls(self, f):
        """call-like nodes in f: body and constructor initialisers"""
        if f._calls is None:
            out = []
            for i in f.inits:
                if is_node(i[2]):
                    out += [n for n in walk(i[2]) if n[0] in ("call", "new", "ctor")]
            out += [n for n in walk(f.body) if n[0] in ("call", "new", "ctor")] if f.body else []
            f._calls = out
        return f._calls

    def bodies(self, f):
        for i in f.inits:
            if is_node(i[2]):
                yield i[2]
        if f.body:
            yield f.body

    def nodes(self, f):
        for b in self.bodies(f):
            yield from walk(b)

    # -- call graph -----------------------------------------------------------------------------------------------
    def callgraph(self):
        if "cg" in self._memo:
            return self._memo["cg"]
        g = {}
        rev = collections.defaultdict(set)
        for f in self.fns.values():
            s = set()
            for n in self.calls(f):
                for t in self.targets(n):
                    s.add(t.key)
            if f.kind == "ctor" or f.kind == "dtor":
                pass
            g[f.key] = s
            for t in s:
                rev[t].add(f.key)
        self._memo["cg"] = (g, rev)
        return g, rev

    def callers(self, key):
        return self.callgraph()[1].get(key, set())

    def reach(self, key, stop=()):
        g = self.callgraph()[0]
        seen = {key}
        st = [key]
        while st:
            k = st.pop()
            for t in g.get(k, ()):
                if t not in seen and t not in stop:
                    seen.add(t); st.append(t)
        return seen

    def fixpoint(self, name, base):
        """least set of functions containing `base(f)` ones and closed under callers"""
        if name in self._memo:
            return self._memo[name]
        s = {f.key for f in self.fns.values() if base(f)}
        rev = self.callgraph()[1]
        st = list(s)
        while st:
            k = st.pop()
            for c in rev.get(k, ()):
                if c not in s:
                    s.add(c); st.append(c)
        self._memo[name] = s
        return s

    # -- exceptions -----------------------------------------------------------------------------------------------
    def throw_kind(self, t):
        """X<Kind|Parent> -> chain of kinds, most specific first"""
        t = t.rstrip("&")
        out = []
        while t.startswith("X<"):
            b = t[2:-1]
            k, _, p = b.partition("|")
            out.append(k)
            t = p
        return tuple(out) or (t,)

    def caught(self, kindchain, hty):
        """does a handler of type hty catch an exception of this kind chain?  True/False/None(maybe)"""
        if hty == "...":
            return True
        h = hty.rstrip("&")
        if h == "LuceneException":
            if kindchain[0] == "std":
                return False
            return True
        if h.startswith("X<"):
            hk = self.throw_kind(h)[0]
            if kindchain[0] == "any":
                return None
            return hk in kindchain
        # std / boost exceptions
        if kindchain[0] == "std":
            return None
        return kindchain[0] == h or (h == "std::exception" and kindchain[0].startswith("std::"))

    def mod_fields(self):
        """key -> frozenset of field names (transitively) assigned"""
        if "mod" in self._memo:
            return self._memo["mod"]
        direct = {}
        for f in self.fns.values():
            s = set()
            for n in self.nodes(f):
                t = None
                if n[0] == "asg":
                    t = n[3]
                elif n[0] == "un" and ("++" in n[2] or "--" in n[2]):
                    t = n[3]
                elif n[0] == "call" and n[2].startswith("boost::shared_ptr::"):
                    t = n[3]
                elif n[0] == "call" and n[3] is None:
                    for a in n[4]:
                        if is_node(a) and a[0] == "field":
                            s.add(a[3])
                while t is not None and t[0] in ("idx", "arrow", "star"):
                    t = t[2]
                if t is not None and t[0] == "field":
                    s.add(t[3])
                elif t is not None and t[0] == "gvar":
                    s.add(t[2])
            direct[f.key] = s
        g, rev = self.callgraph()
        mod = {k: set(v) for k, v in direct.items()}
        work = list(mod)
        inq = set(work)
        while work:
            k = work.pop()
            inq.discard(k)
            v = mod[k]
            for c in rev.get(k, ()):
                if c in mod and not v <= mod[c]:
                    mod[c] |= v
                    if c not in inq:
                        work.append(c); inq.add(c)
        self._memo["mod"] = mod
        return mod

    def pos(self, f, n):
        return "%s:%d (%s)" % (f.file, n[1] if is_node(n) else n, f.qn)


_db = None


def db():
    global _db
    if _db is None:
        _db = DB()
    return _db
