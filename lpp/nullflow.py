"""Which pointers may be empty, and where one is used without having been tested (forward flow over one function at a time,
with a fixed point over the functions that may return an empty pointer)."""
import collections
from .db import db, is_node, name_of

DEAD = None


def join(a, b):
    if a is DEAD:
        return b
    if b is DEAD:
        return a
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x == y:
            out[k] = x
        elif x and x[0] in "NM" or y and y[0] in "NM":
            s = x if x and x[0] in "NM" else y
            out[k] = ("M",) + s[1:] if (x is None or x[0] != "N" or y is None or y[0] != "N") else s
        # one side known to be set, the other unknown: unknown
    return out


def path(e):
    while is_node(e):
        if e[0] == "var":
            return e[2]
        if e[0] == "this":
            return "this"
        if e[0] == "field":
            b = path(e[2])
            return b and b + "." + e[3]
        if e[0] in ("arrow", "star"):
            e = e[2]
        elif e[0] in ("cast",):
            e = e[-1]
        elif e[0] == "ctor" and len(e[4]) == 1:
            e = e[4][0]
        elif e[0] in ("parrow",):
            e = e[2]
        else:
            return None
    return None


def ptr(t):
    return t.startswith(("P<", "const P<"))


class Null:
    def __init__(self, skip=()):
        self.d = d = db()
        self.skip = skip
        self.flags = {}; self.deep = 0; self.needs = {}; self.uses = {}; self.keeps = {}; self.derefs = set()
        self.why = {}                # function key -> why its result may be empty
        fs = [f for f in d.fns.values() if f.body is not None and ptr(f.ret) and not f.file.startswith("src/test")]
        over = {(c, f.sig) for f in d.fns.values() if f.cls in d.classes and ptr(f.ret) for c in d.supers(f.cls)}
        self.abstract = {f.key for f in fs if (f.cls, f.sig) in over and only_empty(f.body)}      # BOOST_ASSERT(false); return ...();
        fs = [f for f in fs if f.key not in self.abstract]
        fs.sort(key=lambda f: f.key)
        for _ in range(6):
            n = len(self.why)
            for f in fs:
                if f.key not in self.why:
                    self.run(f, False)
            if len(self.why) == n:
                break

    calls = 0

    def nullable_call(self, e):
        if e[0] != "call":
            return None
        if name_of(e[2]) in self.skip or e[2] in self.skip:
            return None
        for t in self.d.targets(e):
            if t.key in self.why:
                return t
        return None

    def value(self, e, st):
        """status of the pointer value of an expression"""
        while is_node(e) and (e[0] == "cast" or e[0] == "ctor" and len(e[4]) == 1):
            e = e[-1] if e[0] == "cast" else e[4][0]
        if not is_node(e):
            return None
        if e[0] == "null" or e[0] == "ctor" and ptr(e[2]) and not e[4]:
            return ("N", e[1], "empty")
        if e[0] in ("new",):
            return ("+",)
        if e[0] == "cond":
            a = self.refine(e[2], st, True); b = self.refine(e[2], st, False)
            x = self.value(e[3], a) if a is not DEAD else None
            y = self.value(e[4], b) if b is not DEAD else None
            for s in (x, y):
                if s and s[0] in "NM":
                    return ("M",) + s[1:]
            return ("+",) if x == y == ("+",) else None
        if e[0] == "call":
            t = self.nullable_call(e)
            if t is not None:
                return ("M", e[1], t.qn)
            return None
        p = path(e)
        return st.get(p) if p else None

    def kill(self, st, p):
        for k in [k for k in st if k == p or k.startswith(p + ".")]:
            del st[k]

    def refine(self, c, st, truth):
        """state in which the condition has that truth (None: impossible)"""
        if st is DEAD:
            return DEAD
        while is_node(c) and c[0] == "cast":
            c = c[-1]
        if not is_node(c):
            return st
        if c[0] == "un" and c[2] == "!":
            return self.refine(c[3], st, not truth)
        if c[0] == "bin" and c[2] in ("&&", "||"):
            both = (c[2] == "&&") == truth
            if both:
                return self.refine(c[4], self.refine(c[3], st, truth), truth)
            return join(self.refine(c[3], st, truth), self.refine(c[4], self.refine(c[3], st, not truth), truth))
        if c[0] == "bin" and c[2] in ("==", "!="):
            for a, b in ((c[3], c[4]), (c[4], c[3])):
                v = self.value(b, st)
                p = path(a)
                if p and v and v[0] == "N":
                    return self.setp(st, p, truth == (c[2] == "!="))
                if p and (c[2] == "==") == truth and v and v[0] == "+":
                    return self.setp(st, p, True)
                # equality of something derived from the pointer tells nothing
            return st
        if c[0] == "asg" and c[2] == "=":
            p = path(c[3])
            return self.setp(st, p, truth) if p else st
        p = path(c)
        if c[0] == "var" and c[3] == "bool":
            x = self.flags.get(c[2])
            if x is not None and self.deep < 4:
                self.deep += 1
                st = self.refine(x, st, truth)
                self.deep -= 1
            return st
        if p and c[0] in ("var", "field"):
            return self.setp(st, p, truth)
        if c[0] == "call" and self.deep < 4:
            ts = self.d.targets(c)
            if len(ts) == 1 and ts[0].ret == "bool" and ts[0].body is not None:
                b = [x for x in flat(ts[0].body)]
                if len(b) == 1 and b[0][0] == "ret" and is_node(b[0][2]):
                    m = {p[0]: path(a) for p, a in zip(ts[0].params, c[4])}
                    x = subst(b[0][2], {k: v for k, v in m.items() if v})
                    if x is not None:
                        self.deep += 1
                        st = self.refine(x, st, truth)
                        self.deep -= 1
                    return st
        if c[0] == "call" and name_of(c[2]).split("::")[-1] in ("operator bool", "get") and is_node(c[3]):
            p = path(c[3])
            return self.setp(st, p, truth) if p else st
        return st

    def setp(self, st, p, nonnull):
        v = st.get(p)
        if nonnull:
            if v and v[0] == "N":
                return DEAD
            st = dict(st); st[p] = ("+",); return st
        if v and v[0] == "+":
            return DEAD
        st = dict(st)
        st[p] = ("N",) + (v[1:] if v else (0, "tested"))
        return st

    # ---- expressions: effects on the state and uses
    def ev(self, e, st, f, rep):
        if st is DEAD or not is_node(e):
            return st
        k = e[0]
        if k == "bin" and e[2] in ("&&", "||"):
            st = self.ev(e[3], st, f, rep)
            t = self.refine(e[3], st, e[2] == "&&")
            o = self.refine(e[3], st, e[2] != "&&")
            return join(self.ev(e[4], t, f, rep), o)
        if k == "cond":
            st = self.ev(e[2], st, f, rep)
            return join(self.ev(e[3], self.refine(e[2], st, True), f, rep), self.ev(e[4], self.refine(e[2], st, False), f, rep))
        if k == "asg":
            st = self.ev(e[4], st, f, rep)
            if e[3][0] not in ("var",):
                st = self.ev(e[3], st, f, rep)
            if st is DEAD:
                return st
            p = path(e[3])
            if e[3][0] == "var" and e[3][3] == "bool":
                self.flags.pop(e[3][2], None)
            if p and e[2] == "=":
                v = self.value(e[4], st)
                st = dict(st); self.kill(st, p)
                if v:
                    st[p] = v
            return st
        if k == "lambda":
            return st
        if k in ("arrow", "star", "parrow") and is_node(e[2]):
            st = self.ev(e[2], st, f, rep)
            if st is DEAD:
                return st
            self.use(e, e[2], st, f, rep)
            p = path(e[2])
            if p and p != "this":
                st = dict(st); st[p] = ("+",)
            return st
        if k == "call":
            if is_node(e[3]):
                st = self.ev(e[3], st, f, rep)
            for a in e[4]:
                st = self.ev(a, st, f, rep)
            if st is DEAD:
                return st
            nm = name_of(e[2]).split("::")[-1]
            if nm in ("reset", "swap") and is_node(e[3]) and e[3][0] in ("var", "field"):
                p = path(e[3])
                if p:
                    st = dict(st); self.kill(st, p)
                    if nm == "reset" and not e[4]:
                        st[p] = ("N", e[1], "reset")
                return st
            if nm in ("throwException", "throw_exception", "throw_exception_"):
                if nm != "throwException":
                    return DEAD
            # anything reached through this may change; variables passed by reference may change
            ts = self.d.targets(e)
            if rep:
                self.passed(e, e[4], ts, st, f)
            if any(k2.startswith("this.") or "." in k2 for k2 in st) and not (ts and all(self.pure(t) for t in ts)):
                st = {k2: v for k2, v in st.items() if "." not in k2}
            for t in ts[:1]:
                for a, p in zip(e[4], t.params):
                    if p[2] and is_node(a):
                        q = path(a)
                        if q and q in st:
                            st = dict(st); self.kill(st, q)
            return st
        if k == "throw" or k == "rethrow":
            return DEAD
        if k == "new" and rep:
            for a in e[3]:
                st = self.ev(a, st, f, rep)
            if st is not DEAD:
                self.passed(e, e[3], [t for t in self.d.targets(e) if t.kind == "ctor"], st, f)
            return st
        for x in e[2:]:
            if is_node(x):
                st = self.ev(x, st, f, rep)
            elif isinstance(x, list):
                for y in x:
                    if is_node(y):
                        st = self.ev(y, st, f, rep)
        return st

    def passed(self, e, args, ts, st, f):
        """arguments that the receiver uses without a test"""
        if e[0] == "call" and name_of(e[2]).split("::")[-1] in ("add", "put", "insert", "addFirst", "addLast", "push_back") and name_of(e[2]).startswith(("Collection", "HashMap", "Map", "HashSet", "Set", "std::", "boost::")):
            for a in args:
                v = self.value(a, st)
                if v and v[0] in "NM" and v[2] not in ("empty", "tested", "reset") and not v[2].startswith("@"):
                    self.found(f, e[1], v[2], v[1], None)
        ts = [t for t in ts if t.key not in self.abstract and t.body is not None]
        if not ts:
            return
        for t in ts:
            if t.kind == "ctor":
                for i, fld in self.kept(t).items():
                    if fld in self.derefs and i < len(args) and is_node(args[i]):
                        v = self.value(args[i], st)
                        if v and v[0] in "NM" and v[2] not in ("empty", "tested", "reset") and not v[2].startswith("@"):
                            self.found(f, e[1], v[2], v[1], t)
        for i in set.intersection(*[set(self.needs.get(t.key, ())) for t in ts]):
            if i < len(args) and is_node(args[i]):
                v = self.value(args[i], st)
                if v and (v[0] == "N" or v[0] == "M" and v[2] != "empty") and v[2] != "tested":
                    self.found(f, e[1], v[2], v[1], ts[0])

    def kept(self, t):
        """parameters of a constructor that it stores: position -> field"""
        if t.key not in self.keeps:
            self.keeps[t.key] = {}
            names = {p[0]: i for i, p in enumerate(t.params)}
            out = {}
            for n in self.d.nodes(t):
                if n[0] == "asg" and n[3][0] == "field" and path(n[4]) in names:
                    out[names[path(n[4])]] = n[3][3]
            for x in t.inits or ():
                if x[0] == "m" and is_node(x[2]) and path(x[2]) in names:
                    out[names[path(x[2])]] = x[1]
                elif x[0] == "b" and is_node(x[2]) and x[2][0] == "ctor":
                    for b in self.d.targets(x[2]) or [self.d.fns[k] for k in (x[2][3],) if k in self.d.fns]:
                        for j, fld in self.kept(b).items():
                            if j < len(x[2][4]) and path(x[2][4][j]) in names:
                                out[names[path(x[2][4][j])]] = fld
            self.keeps[t.key] = out
        return self.keeps[t.key]

    def pure(self, t):
        return t.name.startswith(("get", "is", "size", "empty", "length", "has")) and False

    def use(self, e, b, st, f, rep):
        if not rep:
            return
        while is_node(b) and b[0] == "cast":
            b = b[-1]
        if b[0] == "call":
            t = self.nullable_call(b)
            if t is not None:
                self.found(f, e[1], t.qn, b[1], t)
            return
        p = path(b)
        v = st.get(p) if p else None
        # a variable that starts empty and is set on some paths is usually governed by a condition this flow does not relate to it
        if v and (v[0] == "N" or v[0] == "M" and v[2] != "empty"):
            self.found(f, e[1], v[2], v[1], None)

    def found(self, f, line, src, sline, t):
        self.uses.setdefault((f.qn, src), (f.file, line, sline))

    # ---- statements; returns the state after, collecting breaks/continues
    def stmt(self, s, st, f, rep, br, co):
        if st is DEAD or not is_node(s):
            return st
        k = s[0]
        if k == "block":
            for x in s[2:]:
                xs = x if isinstance(x, list) and x and not is_node(x) else [x]
                for y in xs:
                    st = self.stmt(y, st, f, rep, br, co)
            return st
        if k == "decls":
            for x in s[2:]:
                for y in (x if isinstance(x, list) and not is_node(x) else [x]):
                    st = self.stmt(y, st, f, rep, br, co)
            return st
        if k == "decl":
            if is_node(s[4]):
                st = self.ev(s[4], st, f, rep)
                if st is DEAD:
                    return st
                if s[3] == "bool":
                    self.flags[s[2]] = s[4]
                if ptr(s[3]):
                    v = self.value(s[4], st)
                    st = dict(st)
                    self.kill(st, s[2])
                    if v:
                        st[s[2]] = v
            return st
        if k == "if":
            st = self.ev(s[2], st, f, rep)
            a = self.stmt(s[3], self.refine(s[2], st, True), f, rep, br, co)
            b = self.refine(s[2], st, False)
            if is_node(s[4]):
                b = self.stmt(s[4], b, f, rep, br, co)
            return join(a, b)
        if k in ("while", "for", "do", "rfor"):
            if k == "for" and is_node(s[2]):
                st = self.stmt(s[2], st, f, rep, br, co)
            cond = {"while": 2, "for": 3, "do": 3}.get(k)
            c = s[cond] if cond else None
            body = {"while": 3, "for": 5, "do": 2}.get(k)
            body = s[body] if body else s[-1]
            inc = s[4] if k == "for" else None
            if k == "rfor":
                for x in s[2:-1]:
                    if is_node(x) and x[0] != "decl":
                        st = self.ev(x, st, f, rep)
            cur = st
            out = DEAD
            for it in range(3):
                r = rep and it == 2
                if k != "do":
                    h = self.ev(c, cur, f, r) if is_node(c) else cur
                    b = self.refine(c, h, True) if is_node(c) else h
                    out = self.refine(c, h, False) if is_node(c) and not const(c) else (h if k == "rfor" else DEAD)
                else:
                    b = cur
                bs, cs = [], []
                b = self.stmt(body, b, f, r, bs, cs)
                for x in cs:
                    b = join(b, x)
                if k == "do" and is_node(c):
                    b = self.ev(c, b, f, r)
                    out = self.refine(c, b, False) if not const(c) else DEAD
                    b = self.refine(c, b, True)
                if is_node(inc):
                    b = self.ev(inc, b, f, r)
                for x in bs:
                    out = join(out, x)
                cur = join(st, b)
            return out
        if k == "switch":
            st = self.ev(s[2], st, f, rep)
            bs = []
            cur = DEAD
            default = False
            out = DEAD
            def cases(x, cur):
                nonlocal default
                if is_node(x) and x[0] in ("case", "default"):
                    default |= x[0] == "default"
                    cur = join(cur, st)
                    for y in x[2:]:
                        if is_node(y) and y is not x[2] or x[0] == "default" and is_node(y):
                            cur = cases(y, cur)
                    return cur
                return self.stmt(x, cur, f, rep, bs, co)
            body = s[3]
            for x in (body[2:] if is_node(body) and body[0] == "block" else [body]):
                for y in (x if isinstance(x, list) and not is_node(x) else [x]):
                    cur = cases(y, cur)
            out = cur if default else join(cur, st)
            for x in bs:
                out = join(out, x)
            return out
        if k == "break":
            br.append(st); return DEAD
        if k == "cont":
            co.append(st); return DEAD
        if k == "ret":
            if s[2] is not None:
                st = self.ev(s[2], st, f, rep)
                if st is not DEAD and ptr(f.ret) and f.key not in self.abstract:
                    v = self.value(s[2], st)
                    if v and v[0] in "NM" and not v[2].startswith("@"):
                        self.why.setdefault(f.key, (s[1], v[2]))
            return DEAD
        if k == "try":
            a = self.stmt(s[2], st, f, rep, br, co)
            # handlers start from what held before, without what the block may have changed
            h0 = {p: v for p, v in st.items() if not self.assigned(s[2], p)}
            for h in s[3]:
                hb = h[-1] if isinstance(h, list) else None
                a = join(a, self.stmt(hb, dict(h0), f, rep, br, co)) if is_node(hb) else a
            return a
        if k in ("expr",):
            return self.ev(s[2], st, f, rep)
        if k == "sunk":
            return st
        return self.ev(s, st, f, rep)

    def assigned(self, s, p):
        for x in self.d.walk(s) if hasattr(self.d, "walk") else walk(s):
            if x[0] == "asg" and path(x[3]) == p:
                return True
        return False

    def run(self, f, rep):
        self.flags = {}
        self.stmt(f.body, {}, f, rep, [], [])

    def scan(self):
        # which parameters are used without having been tested
        self.needs = {}
        fs = [f for f in self.d.fns.values() if f.body is not None and any(ptr(p[1]) for p in f.params) and not f.file.startswith("src/test")]
        for _ in range(3):
            new = {}
            for f in fs:
                self.uses = {}
                self.flags = {}
                self.stmt(f.body, {p[0]: ("M", 0, "@%d" % i) for i, p in enumerate(f.params) if ptr(p[1])}, f, True, [], [])
                x = {int(s[1:]) for q, s in self.uses if s.startswith("@")}
                if x:
                    new[f.key] = x
            if new == self.needs:
                break
            self.needs = new
        # fields that some method uses without a test
        for f in self.d.fns.values():
            if f.body is None or not f.cls or f.cls not in self.d.classes or f.file.startswith("src/test") or f.kind == "dtor":
                continue
            flds = {}
            for c in [f.cls] + list(self.d.supers(f.cls)):
                if c in self.d.classes:
                    flds.update({"this." + x[0]: ("M", 0, "@" + x[0]) for x in self.d.fields(c) if ptr(x[1])})
            if flds:
                self.uses = {}; self.flags = {}
                self.stmt(f.body, flds, f, True, [], [])
                self.derefs |= {s[1:] for q, s in self.uses if s.startswith("@")}
        self.uses = {}
        n = 0
        for f in sorted(self.d.fns.values(), key=lambda f: f.key):
            if f.body is None or f.file.startswith("src/test"):
                continue
            n += 1
            self.run(f, True)
        return n


def subst(e, m):
    """the expression with parameters replaced by variables of the caller (None if it uses anything else)"""
    if is_node(e):
        if e[0] == "var":
            return [e[0], e[1], m[e[2]], e[3]] if e[2] in m else (None if "@p" not in e[2] else None)
        out = []
        for x in e:
            if isinstance(x, list):
                y = subst(x, m)
                if y is None:
                    return None
                out.append(y)
            else:
                out.append(x)
        return out
    if isinstance(e, list):
        out = [subst(x, m) for x in e]
        return None if any(x is None for x in out) else out
    return e


def only_empty(b):
    xs = [x for x in flat(b) if x[0] not in ("sunk",) and not (x[0] == "expr" and x[2][0] == "cast" and x[2][2] == "void")]
    return len(xs) == 1 and xs[0][0] == "ret" and is_node(xs[0][2]) and (xs[0][2][0] == "null" or xs[0][2][0] == "ctor" and (not xs[0][2][4] or len(xs[0][2][4]) == 1 and is_node(xs[0][2][4][0]) and xs[0][2][4][0][0] in ("null", "ctor") and not xs[0][2][4][0][4:5] != [[]]))


def flat(b):
    out = []
    for x in b[2:]:
        out += [x] if is_node(x) else [y for y in x if is_node(y)] if isinstance(x, list) else []
    return out


def const(c):
    return is_node(c) and c[0] in ("bool", "int") and c[2] in (1, True, "true", "1")


def walk(e):
    if is_node(e):
        yield e
    if isinstance(e, list):
        for x in e:
            yield from walk(x)
