"""Fields of this definitely assigned when a member function returns normally (structured must-analysis, calls on this and
base constructors followed)."""
from .db import db, walk, is_node, name_of

ALL = None     # "does not return normally"


def meet(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a & b


def rethrown(handler, final):
    """does the handler keep the exception in a variable whose throwException is called later?"""
    return any(x[0] == "asg" and x[3][0] == "var" and x[3][2] in final for x in walk(handler))


class Must:
    calls = False       # record "Class::field.method" for calls on the object a field points to

    def __init__(self, cls):
        self.d = db(); self.cls = cls; self.memo = {}; self.final = set()

    def fn(self, f, stack=()):
        """set of 'Class::field' definitely assigned; ALL when it never returns normally"""
        k = f.key
        if k in self.memo:
            return self.memo[k]
        if k in stack or f.body is None:
            return frozenset()
        st = stack + (k,)
        s = frozenset()
        for i in f.inits:
            if i[0] == "m":
                s |= {i[1]}
            if is_node(i[2]):
                s |= self.expr(i[2], st)
            if i[0] in ("b", "d") and is_node(i[2]) and i[2][0] == "ctor":
                t = self.d.fns.get(i[2][3])
                if t is not None:
                    s |= self.fn(t, st) or frozenset()
        old, self.final = self.final, {n[3][2] for n in walk(f.body) if n[0] == "call" and name_of(n[2]) == "LuceneException::throwException" and is_node(n[3]) and n[3][0] == "var"}
        n, rets, _ = self.stmt(f.body, s, st)
        self.final = old
        out = n
        for r in rets:
            out = meet(out, r)
        self.memo[k] = out
        return out

    def expr(self, e, st):
        """fields assigned whenever e is evaluated"""
        if not is_node(e):
            return frozenset()
        k = e[0]
        if k == "bin" and e[2] in ("&&", "||"):
            return self.expr(e[3], st)
        if k == "cond":
            return self.expr(e[2], st) | (self.expr(e[3], st) & self.expr(e[4], st))
        if k == "lambda":
            return frozenset()
        out = frozenset()
        if k == "asg":
            t = e[3]
            while t is not None and t[0] in ("idx", "arrow", "star") and is_node(t[2]):
                t = t[2]
            if t is e[3] and t[0] == "field" and is_node(t[2]) and t[2][0] == "this":
                out |= {t[3]}
        if k == "call":
            if e[3] is not None and e[3][0] == "this":
                ts = self.d.targets(e, self.cls)
                rs = [self.fn(t, st) for t in ts]
                if rs:
                    m = rs[0]
                    for r in rs[1:]:
                        m = meet(m, r)
                    out |= m or frozenset()
            nm = name_of(e[2]).split("::")[-1]
            if self.calls and is_node(e[3]) and e[3][0] == "arrow" and e[3][2][0] == "field" and e[3][2][2][0] == "this":
                out |= {e[3][2][3] + "." + nm}
            if e[3] is not None and e[3][0] == "field" and e[3][2][0] == "this" and nm in ("reset", "clear", "swap", "resize", "setEmpty"):
                out |= {e[3][3]}
            if e[3] is None and (nm in ("memset", "memcpy", "fill", "swap", "fill_n")):
                for a in e[4]:
                    for x in walk(a):
                        if x[0] == "field":
                            out |= {x[3]}
        for c in e[2:]:
            for x in self._sub(c):
                out |= self.expr(x, st)
        return out

    def _sub(self, c):
        if is_node(c):
            yield c
        elif isinstance(c, list):
            for x in c:
                yield from self._sub(x)

    def stmt(self, s, cur, st):
        """(assigned on fall through or ALL, [assigned at returns], [assigned at breaks])"""
        if s is None or cur is ALL:
            return cur, [], []
        k = s[0]
        if k in ("block", "decls"):
            R = []; B = []
            for x in s[2]:
                if not x:
                    continue
                cur, r, b = self.stmt(x, cur, st)
                R += r; B += b
                if cur is ALL:
                    break
            return cur, R, B
        if k == "if":
            self.see(s[2], cur, st)
            c = cur | self.expr(s[2], st)
            if s[2][0] == "bool":
                return self.stmt(s[3] if s[2][2] else s[4], c, st)
            a, r1, b1 = self.stmt(s[3], c, st)
            b, r2, b2 = self.stmt(s[4], c, st) if s[4] is not None else (c, [], [])
            return meet(a, b), r1 + r2, b1 + b2
        if k == "ret":
            self.see(s[2], cur, st)
            return ALL, [cur | (self.expr(s[2], st) if s[2] is not None else frozenset())], []
        if k in ("throw", "rethrow"):
            return ALL, [], []
        if k == "expr" and is_node(s[2]) and s[2][0] in ("throw", "rethrow"):
            return ALL, [], []
        if k in ("break", "cont"):
            return ALL, [], [cur]
        if k == "while":
            self.see(s[2], cur, st)
            c = cur | self.expr(s[2], st)
            n, r, b = self.stmt(s[3], c, st)
            out = ALL if s[2][0] == "bool" and s[2][2] else c
            for x in b:
                out = meet(out, x)
            return out, r, []
        if k == "do":
            n, r, b = self.stmt(s[2], cur, st)
            out = n
            for x in b:
                out = meet(out, x)
            self.see(s[3], n if n is not ALL else cur, st)
            return (out | self.expr(s[3], st)) if out is not ALL else ALL, r, []
        if k == "for":
            if s[2] is not None:
                cur, _, _ = self.stmt(s[2], cur, st)
            self.see(s[3], cur, st)
            c = cur | (self.expr(s[3], st) if s[3] is not None else frozenset())
            n, r, b = self.stmt(s[5], c, st)
            self.see(s[4], n if n is not ALL else c, st)
            out = c if s[3] is not None else ALL
            for x in b:
                out = meet(out, x)
            return out, r, []
        if k == "rfor":
            self.see(s[3], cur, st)
            n, r, b = self.stmt(s[4], cur, st)
            return cur, r, []
        if k == "switch":
            self.see(s[2], cur, st)
            c = cur | self.expr(s[2], st)
            body = s[3] if is_node(s[3]) else None
            has_default = body is not None and any(x[0] == "default" for x in walk(body))
            out = ALL if has_default else c
            R = []
            if body is not None:
                items = body[2] if body[0] == "block" else [body]
                run = ALL
                for x in items:
                    if not x:
                        continue
                    if x[0] in ("case", "default"):
                        run = meet(run, c)
                        y = x[-1]
                        while is_node(y) and y[0] in ("case", "default"):
                            y = y[-1]
                        x = y if is_node(y) else None
                    if x is None:
                        continue
                    run, r, b = self.stmt(x, run, st)
                    R += r
                    for z in b:
                        out = meet(out, z)
                out = meet(out, run)
            return out, R, []
        if k == "try":
            n, r, b = self.stmt(s[2], cur, st)
            R = list(r); B = list(b)
            for h in s[3]:
                hb = h[-1]
                if rethrown(hb, self.final):
                    continue       # the error is raised again before the function returns
                a, r2, b2 = self.stmt(hb, cur, st)
                n = meet(n, a); R += r2; B += b2
            return n, R, B
        if k in ("case", "default", "label"):
            return self.stmt(s[-1], cur, st)
        if k in ("decl", "expr") or True:
            if k == "call" and name_of(s[2]).endswith("throw_exception"):
                return ALL, [], []
            if k == "expr" and is_node(s[2]) and s[2][0] == "call" and name_of(s[2][2]).endswith("throw_exception"):
                return ALL, [], []
            out = frozenset()
            for c in s[2:]:
                for x in self._sub(c):
                    self.see(x, cur, st)
                    out |= self.expr(x, st)
            if k in ("asg", "call", "un"):
                self.see(s, cur, st, True)
                out |= self.expr(s, st)
            return cur | out, [], []

    def see(self, e, cur, st, top=False):
        """hook: e is evaluated when the fields in cur have been assigned"""


class Exposed(Must):
    """fields of this that may be read before they are assigned, and fields assigned at all"""

    def __init__(self, cls):
        super().__init__(cls)
        self.exp = {}        # function key -> exposed fields
        self.asg = {}        # function key -> fields possibly assigned
        self.cur = None

    def fn(self, f, stack=()):
        if f.key in self.memo or f.key in stack or f.body is None:
            return super().fn(f, stack)
        old = self.cur
        self.cur = f.key
        self.exp[f.key] = set(); self.asg[f.key] = set()
        r = super().fn(f, stack)
        self.cur = old
        return r

    def see(self, e, cur, st, top=False):
        if not is_node(e):
            return
        me = self.cur
        todo = [(e, True)]
        while todo:
            n, rd = todo.pop()
            k = n[0]
            if k == "field" and is_node(n[2]) and n[2][0] == "this":
                if rd and n[3] not in (cur or ()):
                    self.exp[me].add(n[3])
                continue
            if k == "asg":
                t = n[3]
                if t[0] == "field" and is_node(t[2]) and t[2][0] == "this":
                    self.asg[me].add(t[3])
                    todo.append((t, n[2] != "="))
                else:
                    todo.append((t, True))
                    while t is not None and t[0] in ("idx", "arrow", "star") and is_node(t[2]):
                        t = t[2]
                    if t[0] == "field":
                        self.asg[me].add(t[3])
                if not top:
                    todo.append((n[4], True))
                continue
            if k == "un" and ("++" in n[2] or "--" in n[2]):
                t = n[3]
                if t[0] == "field":
                    self.asg[me].add(t[3])
            if k == "call":
                if n[3] is not None and n[3][0] == "field":
                    nm = name_of(n[2]).split("::")[-1]
                    if nm in ("add", "put", "remove", "clear", "reset", "addAll", "resize", "push_back", "erase", "operator++", "append"):
                        self.asg[me].add(n[3][3])
                    if nm in ("reset", "clear") and not n[4] and n[3][2][0] == "this" and n[3] is not n:
                        for c in n[4:]:
                            for x in self._sub(c):
                                todo.append((x, True))
                        continue
                if n[3] is not None and n[3][0] == "this":
                    for t in self.d.targets(n, self.cls):
                        if t.key in st or t.body is None:
                            continue
                        self.fn(t, st)
                        self.exp[me] |= self.exp.get(t.key, set()) - set(cur or ())
                        self.asg[me] |= self.asg.get(t.key, set())
            if top and n is e and k == "asg":
                continue
            for c in n[2:]:
                for x in self._sub(c):
                    todo.append((x, True))


class MustCall(Must):
    calls = True
