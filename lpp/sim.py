"""Path-sensitive abstract interpreter over the extracted syntax trees (property simulation).

A state is (env, facts, locks, auto): abstract values of the tracked locations, truth of conditions that are tested more
than once, the locks held through scoped SyncLocks, and the checker's own automaton state.  Statements map a set of
states to sets of outcomes: normal, return, break, continue and exception; loops run to a fixed point; every call that
may throw has an exceptional successor, so handler and cleanup code is covered.  Callees are inlined on the checker's
demand (with the receiver and arguments bound as access paths), so moving code into a helper does not change a verdict."""
import collections
from .db import db, kids, walk, is_node, strip_type, name_of, AnalysisError

COMPOUND = frozenset(("if", "while", "do", "for", "rfor", "switch"))
NOEXC = ("noexc",)
NUL = ("nul",)
VOID = ("void",)
TRUE = ("k", 1)
FALSE = ("k", 0)


class St:
    __slots__ = ("env", "facts", "locks", "auto", "_k")

    def __init__(self, env, facts, locks, auto):
        self.env = env; self.facts = facts; self.locks = locks; self.auto = auto; self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.facts.items()), self.locks, self.auto)
        return self._k

    def w(self, path, val):
        e = dict(self.env); e[path] = val
        return St(e, self.facts, self.locks, self.auto)

    def wo(self, pred):
        e = {k: v for k, v in self.env.items() if not pred(k)}
        return St(e, self.facts, self.locks, self.auto)

    def a(self, auto):
        if auto == self.auto:
            return self
        return St(self.env, self.facts, self.locks, auto)

    def fact(self, k, v):
        f = dict(self.facts); f[k] = v
        return St(self.env, f, self.locks, self.auto)

    def lk(self, locks):
        return St(self.env, self.facts, locks, self.auto)


class Out:
    __slots__ = ("N", "R", "X", "B", "C")

    def __init__(self):
        self.N = []; self.R = []; self.X = []; self.B = []; self.C = []

    def join(self, o, skip=""):
        if "N" not in skip: self.N += o.N
        if "R" not in skip: self.R += o.R
        if "X" not in skip: self.X += o.X
        if "B" not in skip: self.B += o.B
        if "C" not in skip: self.C += o.C


def dedupe(l):
    if len(l) < 2:
        return l
    s = set(); o = []
    for x in l:
        k = x.key()
        if k not in s:
            s.add(k); o.append(x)
    return o


def dedupe2(l):
    if len(l) < 2:
        return l
    s = set(); o = []
    for v, x in l:
        k = (v, x.key())
        if k not in s:
            s.add(k); o.append((v, x))
    return o


def mentions(v, pred):
    """does a value/path mention a location satisfying pred?"""
    if not isinstance(v, tuple):
        return False
    if v and v[0] in ("v", "f", "this", "g", "i") and pred(v):
        return True
    for x in v:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


class Frame:
    __slots__ = ("fn", "this", "cls", "id", "stack", "refs", "dup", "parent")

    def __init__(self, fn, this, cls, id, stack, refs, dup, parent=None):
        self.fn = fn; self.this = this; self.cls = cls; self.id = id; self.stack = stack; self.refs = refs
        self.dup = dup; self.parent = parent


def canon(n):
    """line-free canonical text of an expression, used to spot conditions tested more than once"""
    if isinstance(n, list):
        if is_node(n):
            return "(" + n[0] + " " + " ".join(canon(x) for x in n[2:]) + ")"
        return "[" + " ".join(canon(x) for x in n) + "]"
    return str(n)


def atoms(c):
    """atomic conditions of a boolean expression"""
    if c is None:
        return
    if c[0] == "un" and c[2] == "!":
        yield from atoms(c[3])
    elif c[0] == "bin" and c[2] in ("&&", "||"):
        yield from atoms(c[3]); yield from atoms(c[4])
    elif c[0] == "asg" and c[2] == "=":
        yield c
    else:
        yield c


_dupcache = {}


def dup_atoms(fn):
    r = _dupcache.get(fn.key)
    if r is None:
        cnt = collections.Counter()
        if fn.body:
            for n in walk(fn.body):
                c = None
                if n[0] in ("if", "while", "cond"):
                    c = n[2]
                elif n[0] == "do":
                    c = n[3]
                elif n[0] == "for":
                    c = n[3]
                if is_node(c):
                    for a in atoms(c):
                        cnt[norm_atom(a)] += 1
        r = {k for k, v in cnt.items() if v > 1}
        _dupcache[fn.key] = r
    return r


def norm_atom(a):
    if a[0] == "bin" and a[2] in ("==", "!=", "<", ">", "<=", ">="):
        l, r = canon(a[3]), canon(a[4])
        if a[2] in ("==", "!="):
            return "==" + min(l, r) + max(l, r)
        if a[2] in ("<", ">="):
            return "<" + l + r
        return "<" + r + l
    return canon(a)


PROGRAMMING = {"IllegalArgument", "IllegalState", "UnsupportedOperation", "NullPointer", "IndexOutOfBounds",
               "NumberFormat", "Lookahead", "StopFillCache"}

# library members that never throw Lucene exceptions and never modify tracked fields
PURE_PREFIX = ("std::", "boost::", "Array::", "Collection::", "HashSet::", "HashMap::", "Map::", "Set::", "WeakHashMap::",
               "ArrayData::", "StringUtils::", "MiscUtils::", "LuceneException::", "Synchronize", "SyncLock", "LuceneSync::", "LuceneSignal::",
               "luceneEquals", "luceneHash", "luceneCompare", "LuceneObject::", "InfoStream", "CycleCheck", "LuceneThread::")


class Sim:
    maxdepth = 8
    cap = 600
    steps_cap = 400000

    def __init__(self):
        self.db = db()
        self.curexc = []
        self.memo = {}
        self.capped = 0
        self.steps = 0
        self.inlined = set()
        self.sites = set()
        self._mod = self.db.mod_fields()
        self._throws = None
        self._nodemod = {}
        self._rel = {}

    # ---- policy hooks (overridden by checkers) ------------------------------------------------------------------
    def track(self, path, typ):
        """keep the value of this location?"""
        if path[0] == "v":
            return typ in ("bool", "LuceneException") or typ[:2] == "P<" or self.is_handle(typ)
        return False

    def is_handle(self, typ):
        return False

    def inline(self, fn, node, st, fr):
        return False

    def may_throw(self, node, targets, st, fr):
        if self._throws is None:
            self._throws = throwing_set(self.db, self.calm)
        if not targets:
            return False
        return any(t.key in self._throws for t in targets)

    calm = frozenset()       # functions assumed not to throw (stated as an assumption of the check)

    def on_call(self, node, key, recv, args, st, fr, xs):
        """override the meaning of a call: return None, or a list of (value, state)"""
        return None

    def pre_call(self, node, key, recv, args, st, fr):
        """observe a call before it happens; returns the state to continue with"""
        return st

    def after_call(self, node, key, recv, args, st, fr):
        return st

    def on_assign(self, path, val, st, node, fr):
        return st

    def on_lock(self, lock, st, node, fr):
        return st

    def on_unlock(self, lock, st, node, fr):
        return st

    def refine_field(self, path, typ):
        """may truth refinement be recorded for a field location"""
        return False

    # ---- entry --------------------------------------------------------------------------------------------------
    def run(self, fn, auto=None, cls=None, env=None, facts=None, args=None, with_inits=False):
        self.fr0 = fr = Frame(fn, ("this",), cls or fn.cls, 0, (fn.key,), {}, dup_atoms(fn))
        st = St(dict(env or {}), dict(facts or {}), (), auto)
        if args:
            for p, v in zip(fn.params, args):
                if v is not None:
                    st = st.w(("v", p[0], 0), v)
        o = Out()
        sts = [st]
        if with_inits:
            xs = []
            for i in fn.inits:
                nx = []
                for s in sts:
                    for v, s2 in (self.ev(i[2], s, fr, xs) if is_node(i[2]) else [(None, s)]):
                        if i[0] == "m":
                            s2 = self.assign(("f", fr.this, i[1]), v, s2, i[2], fr, "?")
                        nx.append(s2)
                sts = dedupe(nx)
            o.X += xs
        for s in sts:
            o.join(self.ex(fn.body, s, fr))
        for s in o.N:
            o.R.append((VOID, s))
        o.R = dedupe2(o.R); o.X = dedupe2(o.X); o.N = []
        return o

    # ---- statements ---------------------------------------------------------------------------------------------
    def seq(self, stmts, sts, fr):
        o = Out()
        cur = sts
        for s in stmts:
            nxt = Out()
            for st in cur:
                nxt.join(self.ex(s, st, fr))
            o.join(nxt, skip="N")
            cur = self.limit(dedupe(nxt.N))
            if not cur:
                break
        o.N = cur
        return o

    def limit(self, sts):
        if len(sts) <= self.cap:
            return sts
        self.capped += 1
        seen = {}
        for s in sts:
            k = (s.auto, s.locks)
            if k not in seen:
                seen[k] = s
            else:
                t = seen[k]
                env = {p: v for p, v in t.env.items() if s.env.get(p) == v}
                facts = {p: v for p, v in t.facts.items() if s.facts.get(p) == v}
                seen[k] = St(env, facts, s.locks, s.auto)
        return list(seen.values())

    def ex(self, s, st, fr):
        self.steps += 1
        if self.steps > self.steps_cap:
            raise AnalysisError("analysis budget exceeded in " + fr.fn.qn)
        k = s[0]
        o = Out()
        if k in COMPOUND and not self.relevant(s):
            o.N.append(st)
            return o
        if k == "block":
            depth = len(st.locks)
            declared = []
            o = self.seq(s[2], [st], fr)
            # leave scope: release scoped locks, forget block locals
            names = [d[2] for d in block_decls(s)]
            self._leave(o, depth, names, s, fr)
            return o
        if k == "expr":
            xs = []
            for v, x in self.ev(s[2], st, fr, xs):
                o.N.append(x)
            o.X = xs
            return o
        if k == "decl":
            return self.decl(s, st, fr)
        if k == "decls":
            return self.seq(s[2], [st], fr)
        if k == "if":
            xs = []
            t, f = self.cond(s[2], st, fr, xs)
            o.X += xs
            for x in t:
                o.join(self.sub(s[3], x, fr))
            for x in f:
                if s[4] is not None:
                    o.join(self.sub(s[4], x, fr))
                else:
                    o.N.append(x)
            o.N = dedupe(o.N)
            return o
        if k == "ret":
            if s[2] is None:
                o.R.append((VOID, st)); return o
            xs = []
            if fr.fn.ret == "bool" and s[2][0] in ("bin", "un", "call", "field", "var", "cond"):
                t, f = self.cond(s[2], st, fr, xs)
                o.R = [(TRUE, x) for x in t] + [(FALSE, x) for x in f]
            else:
                o.R = list(self.ev(s[2], st, fr, xs))
            o.X = xs
            return o
        if k == "while":
            return self.loop(s[2], s[3], None, st, fr, False)
        if k == "do":
            return self.loop(s[3], s[2], None, st, fr, True)
        if k == "for":
            depth = len(st.locks)
            sts = [st]
            if s[2] is not None:
                i = self.ex(s[2], st, fr)
                o.X += i.X
                sts = i.N
            for x in sts:
                o.join(self.loop(s[3], s[5], s[4], x, fr, False))
            names = [d[2] for d in (block_decls(["block", 0, [s[2]]]) if s[2] is not None else [])]
            self._leave(o, depth, names, s, fr)
            o.N = dedupe(o.N)
            return o
        if k == "rfor":
            xs = []
            for v, x in self.ev(s[3], st, fr, xs):
                o.join(self.loop(None, s[4], None, x, fr, False, loopvar=s[2], coll=v))
            o.X += xs
            return o
        if k == "break":
            o.B.append(st); return o
        if k == "cont":
            o.C.append(st); return o
        if k == "switch":
            return self.switch(s, st, fr)
        if k in ("case",):
            return self.ex(s[3], st, fr) if s[3] is not None else self._n(st)
        if k == "default":
            return self.ex(s[2], st, fr) if s[2] is not None else self._n(st)
        if k == "try":
            return self.tryst(s, st, fr)
        if k == "label":
            return self.ex(s[3], st, fr) if s[3] is not None else self._n(st)
        if k == "goto":
            raise AnalysisError("goto in " + fr.fn.qn)
        # an expression used as a statement
        xs = []
        for v, x in self.ev(s, st, fr, xs):
            o.N.append(x)
        o.X = xs
        return o

    slicing = True
    widen = 24

    def relevant(self, s):
        """can this compound statement matter: leave, throw, call something that counts, or write a tracked location?"""
        r = self._rel.get(id(s))
        if r is None:
            r = not self.slicing or self._relevant(s, False, False)
            self._rel[id(s)] = r
        return r

    def call_relevant(self, n):
        """does a call node matter to this analysis (throws, or has an effect the checker watches)?"""
        if n[0] == "ctor":
            return False
        if n[0] == "call" and n[2].startswith(PURE_PREFIX):
            return n[2].startswith(("LuceneException::", "boost::shared_ptr::reset")) and not n[2].startswith("LuceneException::getError")
        if n[0] == "new" and n[2] not in self.db.classes:
            return False
        return True

    def _relevant(self, n, inloop, insw):
        k = n[0]
        if k in ("ret", "throw", "rethrow", "try", "goto", "label", "lambda"):
            return True
        if k == "break":
            return not (inloop or insw)
        if k == "cont":
            return not inloop
        if k in ("call", "new") and self.call_relevant(n):
            return True
        if k == "decl" and (n[3] == "SyncLock" or n[3].startswith("boost::unique_lock") or (n[5] != "" and n[5] != "ref") or self.track(("v", n[2], 0), n[3])):
            return True
        t = None
        if k == "asg":
            t = n[3]
        elif k == "un" and ("++" in n[2] or "--" in n[2]):
            t = n[3]
        if t is not None:
            if t[0] == "var":
                if self.track(("v", t[2], 0), t[3]):
                    return True
            elif t[0] == "field":
                if self.field_relevant(t[3], t[4]):
                    return True
            elif t[0] == "gvar" and self.track(("g", t[2]), t[3]):
                return True
        if k in ("while", "do", "for", "rfor"):
            inloop = True
        elif k == "switch":
            insw = True
        for c in kids(n):
            if self._relevant(c, inloop, insw):
                return True
        return False

    def field_relevant(self, qn, typ):
        return True

    def _n(self, st):
        o = Out(); o.N.append(st); return o

    def sub(self, s, st, fr):
        """a controlled statement: opens its own scope even without braces"""
        if s is None:
            return self._n(st)
        if s[0] in ("decl", "decls"):
            return self.ex(["block", s[1], [s], s[1]], st, fr)
        return self.ex(s, st, fr)

    def _leave(self, o, depth, names, s, fr):
        ns = {("v", n, fr.id) for n in names}

        def fix(x):
            while len(x.locks) > depth:
                lk = x.locks[-1]
                x = x.lk(x.locks[:-1])
                x = self.on_unlock(lk, x, s, fr)
            if ns:
                x = self.forget(x, lambda p: p in ns)
            return x
        o.N = dedupe([fix(x) for x in o.N])
        o.B = dedupe([fix(x) for x in o.B])
        o.C = dedupe([fix(x) for x in o.C])
        o.R = dedupe2([(v, fix(x)) for v, x in o.R])
        o.X = dedupe2([(v, fix(x)) for v, x in o.X])

    def forget(self, x, pred):
        """locations satisfying pred die: values referring to them become opaque"""
        ch = False
        env = {}
        for p, v in x.env.items():
            if pred(p) or mentions(p, pred):
                ch = True
                continue
            if v[0] not in ("k", "nul", "noexc", "exc") and mentions(v, pred):
                ch = True
                v = ("u", "old", p)
            env[p] = v
        facts = {}
        for p, v in x.facts.items():
            if mentions(p, pred):
                ch = True
                continue
            facts[p] = v
        if not ch:
            return x
        return St(env, facts, x.locks, x.auto)

    def decl(self, s, st, fr):
        o = Out()
        vid, typ, init, fl = s[2], s[3], s[4], s[5]
        if fl.startswith("static:"):
            o.N.append(st); return o
        path = ("v", vid, fr.id)
        if typ == "SyncLock" or typ.startswith("boost::unique_lock"):
            xs = []
            if init is not None and init[0] == "ctor" and init[4]:
                for p, x in self.evpath(init[4][0], st, fr, xs):
                    o.N.append(self.on_lock(p, x.lk(x.locks + (p,)), s, fr))
            else:
                o.N.append(st)
            o.X = xs
            return o
        if init is None:
            o.N.append(self.forget(st, lambda p: p == path)); return o
        xs = []
        if fl == "ref":
            for p, x in self.evpath(init, st, fr, xs):
                fr.refs[vid] = p
                o.N.append(x)
            o.X = xs
            return o
        if typ == "LuceneException" and init[0] == "ctor" and init[3].startswith("LuceneException::LuceneException("):
            exargs = init[4]
            if len(exargs) == 2 and exargs[1][0] == "enum" and exargs[1][2].endswith("::Null"):
                o.N.append(st.w(path, NOEXC)); return o
        for v, x in self.ev(init, st, fr, xs):
            o.N.append(self.assign(path, v, x, s, fr, typ, isdecl=True))
        o.X = xs
        return o

    def loop(self, cond, body, inc, st, fr, isdo, loopvar=None, coll=None):
        o = Out()
        seen = set()
        work = []

        wid = None

        def push(x):
            nonlocal wid
            if total[0] > self.widen:
                # counters have run long enough: forget their values
                if wid is None:
                    wid = loop_counters(cond, body, inc)
                for p, v in x.env.items():
                    if p[0] == "v" and p[1] in wid and v[0] in ("k", "op"):
                        x = x.w(p, ("u", "wide", p))
            k = x.key()
            if k not in seen:
                seen.add(k); work.append(x)
        exits = []
        entry = [st]
        total = [0]
        if isdo:
            # first iteration of the body unconditionally
            b = self.sub(body, st, fr)
            o.R += b.R; o.X += b.X; exits += b.B
            entry = dedupe(b.N + b.C)
        for x in entry:
            push(x)
        n = 0
        while work:
            x = work.pop()
            n += 1
            total[0] += 1
            if n > self.cap:
                self.capped += 1
                ws = self.limit2(work)
                work = []
                for w in ws:
                    push(w)
                n = 0
            if cond is not None:
                xs = []
                t, f = self.cond(cond, x, fr, xs)
                o.X += xs
                exits += f
            elif loopvar is not None:
                exits.append(self.iter_end(coll, x, fr))
                t = [self.iter_next(coll, loopvar, self.forget(x, lambda p: p == ("v", loopvar[2], fr.id)), fr)]
            else:
                t = [x]
            for y in t:
                b = self.sub(body, y, fr)
                o.R += b.R; o.X += b.X; exits += b.B
                for z in dedupe(b.N + b.C):
                    if inc is not None:
                        xs = []
                        for v, z2 in self.ev(inc, z, fr, xs):
                            push(z2)
                        o.X += xs
                    else:
                        push(z)
        o.N = self.limit(dedupe(exits)); o.X = dedupe2(o.X); o.R = dedupe2(o.R)
        return o

    def iter_next(self, coll, var, st, fr):
        """a range loop enters its body with the next element of coll in var"""
        return st

    def iter_end(self, coll, st, fr):
        return st

    def limit2(self, l):
        return self.limit(l) if len(l) > self.cap else l

    def switch(self, s, st, fr):
        o = Out()
        xs = []
        body = s[3]
        stmts = body[2] if body and body[0] == "block" else [body]
        # flatten nested case labels
        flat = []      # (labels, stmt)
        for b in stmts:
            labels = []
            while b is not None and b[0] in ("case", "default"):
                labels.append(b[2] if b[0] == "case" else "default")
                b = b[3] if b[0] == "case" else b[2]
            flat.append((labels, b))
        for v, x in self.ev(s[2], st, fr, xs):
            hasdef = any("default" in l for l, b in flat)
            picks = None
            if v[0] == "k":
                picks = []
                for i, (ls, b) in enumerate(flat):
                    for l in ls:
                        if l != "default":
                            for lv, _ in self.ev(l, x, fr, []):
                                if lv == v:
                                    picks.append(i)
                if not picks:
                    picks = [i for i, (ls, b) in enumerate(flat) if "default" in ls]
                    if not picks:
                        o.N.append(x)
            else:
                picks = [i for i, (ls, b) in enumerate(flat) if ls]
                if not hasdef:
                    o.N.append(x)
            for i in picks:
                r = self.seq([b for ls, b in flat[i:] if b is not None], [x], fr)
                o.N += r.N + r.B
                o.R += r.R; o.X += r.X; o.C += r.C
        o.X += xs
        depth = len(st.locks)
        names = [d[2] for d in block_decls(body)] if body and body[0] == "block" else []
        self._leave(o, depth, names, s, fr)
        return o

    def tryst(self, s, st, fr):
        o = Out()
        b = self.ex(s[2], st, fr)
        o.join(b, skip="X")
        for exc, x in self.limitx(dedupe2(b.X)):
            pend = True
            for h in s[3]:
                c = self.db.caught(exc, h[1])
                if c is False:
                    continue
                kind = exc
                if c is None and h[1].startswith("X<"):
                    kind = self.db.throw_kind(h[1]) + exc[1:]
                y = x
                if h[2] is not None:
                    y = y.w(("v", h[2], fr.id), ("exc", kind))
                y = self.on_catch(s, h, kind, y, fr)
                self.curexc.append(kind)
                r = self.ex(h[3], y, fr)
                self.curexc.pop()
                if h[2] is not None:
                    self._leave(r, len(x.locks), [h[2]], s, fr)
                o.join(r)
                if c is True:
                    pend = False
                    break
            if pend:
                o.X.append((exc, x))
        o.N = dedupe(o.N); o.X = dedupe2(o.X); o.R = dedupe2(o.R)
        return o

    def on_catch(self, trynode, handler, kind, st, fr):
        return st

    def limitx(self, l):
        if len(l) <= self.cap:
            return l
        self.capped += 1
        by = collections.defaultdict(list)
        for e, s in l:
            by[e].append(s)
        out = []
        for e, ss in by.items():
            out += [(e, s) for s in self.limit(ss + ss[:1] * 0)] if len(ss) > 1 else [(e, ss[0])]
        return out

    # ---- expressions --------------------------------------------------------------------------------------------
    def rd(self, path, st):
        """value of a location"""
        v = st.env.get(path)
        if v is not None:
            return v
        return ("p", path)

    def site(self, n, fr):
        return ("u", id(n), fr.id)

    def evpath(self, e, st, fr, xs):
        """location denoted by an lvalue (or object) expression -> [(path, state)]"""
        k = e[0]
        if k == "this":
            return [(fr.this, st)]
        if k == "var":
            if e[2] in fr.refs:
                return [(fr.refs[e[2]], st)]
            return [(("v", e[2], fr.id), st)]
        if k == "gvar":
            return [(("g", e[2]), st)]
        if k == "field":
            return [(("f", p, e[3]), x) for p, x in self.objpath(e[2], st, fr, xs)]
        if k in ("arrow", "parrow", "star"):
            return self.objpath(e[2], st, fr, xs)
        if k == "idx":
            out = []
            for p, x in self.objpath(e[2], st, fr, xs):
                for v, y in self.ev(e[3], x, fr, xs):
                    out.append((("i", p, v), y))
            return out
        if k in ("cast", "dpc"):
            return self.evpath(e[3], st, fr, xs)
        if k == "lockw":
            return self.evpath(e[2], st, fr, xs)
        if k == "un" and e[2] in ("&", "*"):
            return self.evpath(e[3], st, fr, xs)
        out = []
        for v, x in self.ev(e, st, fr, xs):
            out.append((v[1] if v[0] == "p" else v, x))
        return out

    def objpath(self, e, st, fr, xs):
        """path of the object an expression designates, following tracked aliases"""
        if e[0] == "this":
            return [(fr.this, st)]
        out = []
        for v, x in self.ev(e, st, fr, xs):
            out.append((v[1] if v[0] == "p" else v, x))
        return out

    def ev(self, e, st, fr, xs):
        k = e[0]
        if k in ("int", "bool"):
            return [(("k", int(e[2])), st)]
        if k == "enum":
            return [(("k", e[3]), st)]
        if k == "null":
            return [(NUL, st)]
        if k == "str":
            return [(("s", e[2]), st)]
        if k == "float":
            return [(("s", e[2]), st)]
        if k == "this":
            return [(("p", fr.this), st)]
        if k == "var":
            p = ("v", e[2], fr.id) if e[2] not in fr.refs else fr.refs[e[2]]
            return [(self.rd(p, st), st)]
        if k == "gvar":
            return [(self.gval(e, st), st)]
        if k == "field":
            out = []
            for p, x in self.objpath(e[2], st, fr, xs):
                x = self.on_read(("f", p, e[3]), e, x, fr)
                out.append((self.rd(("f", p, e[3]), x), x))
            return out
        if k in ("arrow", "parrow"):
            return self.ev(e[2], st, fr, xs)
        if k == "star":
            return self.ev(e[2], st, fr, xs)
        if k == "lockw":
            return self.ev(e[2], st, fr, xs)
        if k == "idx":
            out = []
            for p, x in self.objpath(e[2], st, fr, xs):
                for v, y in self.ev(e[3], x, fr, xs):
                    out.append((self.rd(("i", p, v), y), y))
            return out
        if k == "cast":
            return self.ev(e[3], st, fr, xs)
        if k == "dpc":
            out = []
            for v, x in self.ev(e[3], st, fr, xs):
                if e[4] == "dynamic":
                    out.append((v if v == NUL else ("u", "dpc", e[2], v), x))
                else:
                    out.append((v, x))
            return out
        if k == "asg":
            return self.asg(e, st, fr, xs)
        if k == "un":
            return self.unary(e, st, fr, xs)
        if k == "bin":
            op = e[2]
            if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                t, f = self.cond(e, st, fr, xs, pure=True)
                if op in ("==", "!=", "<", ">", "<=", ">=") and len(t) == 1 and len(f) == 1 and t[0].key() == f[0].key():
                    return [(self.site(e, fr), t[0])]
                return [(TRUE, x) for x in t] + [(FALSE, x) for x in f]
            out = []
            for a, x in self.ev(e[3], st, fr, xs):
                for b, y in self.ev(e[4], x, fr, xs):
                    out.append((self.arith(op, a, b, e, fr), y))
            return out
        if k == "cond":
            t, f = self.cond(e[2], st, fr, xs)
            out = []
            for x in t:
                out += self.ev(e[3], x, fr, xs)
            for x in f:
                out += self.ev(e[4], x, fr, xs)
            return dedupe2(out)
        if k == "call":
            return self.call(e, st, fr, xs)
        if k == "new":
            return self.new(e, st, fr, xs)
        if k == "ctor":
            sts = self.evargs(e[4], st, fr, xs)
            out = []
            for vs, x in sts:
                r = self.on_ctor(e, vs, x, fr, xs)
                if r is not None:
                    out += r
                elif len(vs) == 1 and vs[0][0] in ("exc", "noexc"):
                    out.append((vs[0], x))
                elif e[2] == "LuceneException" and len(e[4]) == 2 and e[4][1][0] == "enum" and e[4][1][2].endswith("::Null"):
                    out.append((NOEXC, x))
                else:
                    out.append((("u", "ctor", id(e), fr.id), x))
            return out
        if k == "throw":
            for v, x in self.throwval(e, st, fr, xs):
                xs.append((v, x))
            return []
        if k == "rethrow":
            xs.append((self.curexc[-1] if self.curexc else ("any",), st))
            return []
        if k == "ilist":
            return [(self.site(e, fr), x) for vs, x in self.evargs(e[2], st, fr, xs)]
        if k in ("lambda", "fref", "ref"):
            return [(self.site(e, fr), st)]
        if k == "delete":
            return [(VOID, x) for v, x in self.ev(e[2], st, fr, xs)]
        if k == "unk":
            return [(self.site(e, fr), x) for vs, x in self.evargs(e[3] if len(e) > 3 else [], st, fr, xs)]
        if k in ("block", "decl", "if"):
            raise AnalysisError("statement in expression position")
        return [(self.site(e, fr), st)]

    def on_read(self, path, node, st, fr):
        return st

    def on_ctor(self, e, vs, st, fr, xs):
        return None

    def gval(self, e, st):
        v = st.env.get(("g", e[2]))
        if v is not None:
            return v
        g = self.db.gvars.get(e[2])
        if g is not None and len(g) > 7 and g[7] is not None and g[5]:
            return ("k", g[7])
        return ("p", ("g", e[2]))

    def throwval(self, e, st, fr, xs):
        t = e[2]
        if t.startswith("X<"):
            kc = self.db.throw_kind(t)
            out = []
            for v, x in self.ev(e[3], st, fr, xs):
                out.append((kc, x))
            return out
        out = []
        for v, x in self.ev(e[3], st, fr, xs):
            out.append((v[1] if v[0] == "exc" else ("any",), x))
        return out

    def evargs(self, args, st, fr, xs):
        cur = [((), st)]
        for a in args:
            nxt = []
            for vs, x in cur:
                for v, y in self.ev(a, x, fr, xs):
                    nxt.append((vs + (v,), y))
            cur = nxt
        return cur

    def arith(self, op, a, b, e, fr):
        if a[0] == "k" and b[0] == "k":
            try:
                x, y = a[1], b[1]
                if op == "+": return ("k", x + y)
                if op == "-": return ("k", x - y)
                if op == "*": return ("k", x * y)
                if op == "/": return ("k", int(x / y)) if y else self.site(e, fr)
                if op == "%": return ("k", x - y * int(x / y)) if y else self.site(e, fr)
                if op == "&": return ("k", x & y)
                if op == "|": return ("k", x | y)
                if op == "^": return ("k", x ^ y)
                if op == "<<" and 0 <= y < 64: return ("k", x << y)
                if op == ">>" and 0 <= y < 64: return ("k", x >> y)
            except Exception:
                pass
        if op in ("+", "-") and b == FALSE:
            return a
        if self.symbolic and depth_of(a) + depth_of(b) <= 6:
            if op in ("+", "*", "&", "|", "^") and repr(b) < repr(a):
                a, b = b, a
            return ("op", op, a, b)
        return self.site(e, fr)

    symbolic = False

    def asg(self, e, st, fr, xs):
        op = e[2]
        out = []
        typ = self.ltype(e[3])
        if op == "=":
            for v, x in self.ev(e[4], st, fr, xs):
                for p, y in self.evpath(e[3], x, fr, xs):
                    y = self.assign(p, v, y, e, fr, typ)
                    out.append((v, y))
            return out
        for v, x in self.ev(e[4], st, fr, xs):
            for p, y in self.evpath(e[3], x, fr, xs):
                old = self.rd(p, y)
                nv = self.arith(op[:-1], old, v, e, fr)
                if op in ("&=", "|=") and typ == "bool":
                    if op == "|=" and (old == TRUE or v == TRUE): nv = TRUE
                    if op == "&=" and (old == FALSE or v == FALSE): nv = FALSE
                    if op == "|=" and old == FALSE and v[0] == "k": nv = v
                    if op == "&=" and old == TRUE and v[0] == "k": nv = v
                out.append((nv, self.assign(p, nv, y, e, fr, typ)))
        return out

    def ltype(self, e):
        if e[0] in ("var",):
            return e[3]
        if e[0] == "field":
            return e[4]
        if e[0] == "gvar":
            return e[3]
        if e[0] in ("star", "arrow", "parrow"):
            return "?"
        return "?"

    def assign(self, path, val, st, node, fr, typ, isdecl=False):
        if typ == "LuceneException" and val[0] not in ("exc", "noexc"):
            if val[0] == "u":
                val = ("exc", ("any",))
        # identities referring to the overwritten location become stale
        if not (val[0] == "p" and val[1] == path):
            st = self.forget(st, lambda p: p == path)
        tr = self.track(path, typ)
        if tr:
            if val[0] == "u" or val[0] == "op" or val[0] == "p" or val[0] in ("k", "nul", "exc", "noexc", "nn", "s"):
                if mentions(val, lambda p: p == path):
                    val = ("u", id(node), fr.id)
                st = st.w(path, val)
        return self.on_assign(path, val, st, node, fr)

    def unary(self, e, st, fr, xs):
        op = e[2]
        if op == "!":
            t, f = self.cond(e, st, fr, xs, pure=True)
            if len(t) == 1 and len(f) == 1 and t[0].key() == f[0].key():
                return [(self.site(e, fr), t[0])]
            return [(TRUE, x) for x in t] + [(FALSE, x) for x in f]
        if op in ("pre++", "pre--", "post++", "post--"):
            out = []
            typ = self.ltype(e[3])
            for p, x in self.evpath(e[3], st, fr, xs):
                old = self.rd(p, x)
                nv = self.arith("+" if "++" in op else "-", old, ("k", 1), e, fr)
                y = self.assign(p, nv, x, e, fr, typ)
                out.append((nv if op.startswith("pre") else old, y))
            return out
        out = []
        for v, x in self.ev(e[3], st, fr, xs):
            if op == "-" and v[0] == "k":
                out.append((("k", -v[1]), x))
            elif op == "~" and v[0] == "k":
                out.append((("k", ~v[1]), x))
            elif op in ("&", "*", "+"):
                out.append((v, x))
            elif self.symbolic and depth_of(v) <= 5:
                out.append((("op", op, v), x))
            else:
                out.append((self.site(e, fr), x))
        return out

    # ---- conditions ---------------------------------------------------------------------------------------------
    def cond(self, c, st, fr, xs, pure=False):
        if c is None:
            return [st], []
        k = c[0]
        if k == "bool":
            return ([st], []) if c[2] else ([], [st])
        if k == "un" and c[2] == "!":
            t, f = self.cond(c[3], st, fr, xs)
            return f, t
        if k == "bin" and c[2] == "&&":
            t, f = self.cond(c[3], st, fr, xs)
            T = []
            for x in t:
                t2, f2 = self.cond(c[4], x, fr, xs)
                T += t2; f = f + f2
            return dedupe(T), dedupe(f)
        if k == "bin" and c[2] == "||":
            t, f = self.cond(c[3], st, fr, xs)
            F = []
            for x in f:
                t2, f2 = self.cond(c[4], x, fr, xs)
                F += f2; t = t + t2
            return dedupe(t), dedupe(F)
        if k == "bin" and c[2] in ("==", "!=", "<", ">", "<=", ">="):
            T = []; F = []
            for a, x in self.ev(c[3], st, fr, xs):
                for b, y in self.ev(c[4], x, fr, xs):
                    t, f = self.compare(c, a, b, y, fr)
                    T += t; F += f
            return dedupe(T), dedupe(F)
        T = []; F = []
        for v, x in self.ev(c, st, fr, xs):
            t, f = self.truth(c, v, x, fr)
            T += t; F += f
        return dedupe(T), dedupe(F)

    def lv(self, e, st, fr):
        """location of a simple lvalue expression, or None"""
        e2 = e
        while e2[0] in ("cast",):
            e2 = e2[3]
        if e2[0] == "asg" and e2[2] == "=":
            e2 = e2[3]
        if e2[0] in ("var", "field", "gvar"):
            r = self.evpath(e2, st, fr, [])
            if len(r) == 1:
                return r[0][0], self.ltype(e2)
        return None, None

    def value_truth(self, v, st):
        if v[0] == "k":
            return v[1] != 0
        if v[0] in ("nul", "noexc"):
            return False
        if v[0] in ("nn",):
            return True
        if v[0] == "exc":
            return True
        r = st.facts.get(("t", v))
        return r

    def truth(self, c, v, st, fr):
        b = self.value_truth(v, st)
        if b is True:
            return [st], []
        if b is False:
            return [], [st]
        p, typ = self.lv(c, st, fr)
        t, f = st, st
        if p is not None and typ == "bool" and (self.track(p, typ)):
            return self.on_branch(c, v, [t.w(p, TRUE)], [f.w(p, FALSE)], fr)
        if p is not None and typ[:2] in ("P<", "W<") and self.track(p, typ):
            if v[0] == "p" and v[1] == p:
                f = f.w(p, NUL)
        if self.keep(c, v, fr):
            t = t.fact(("t", v), True); f = f.fact(("t", v), False)
        return self.on_branch(c, v, [t], [f], fr)

    def on_branch(self, c, v, t, f, fr):
        """observe a branch on a value of unknown truth"""
        return t, f

    def keep(self, c, v, fr):
        """record the truth of this condition?"""
        return norm_atom(c) in fr.dup or (v[0] == "p" and v[1][0] == "v" and v[1][2] != fr.id)

    def compare(self, c, a, b, st, fr):
        op = c[2]
        if op == "!=":
            t, f = self.compare([c[0], c[1], "==", c[3], c[4]], a, b, st, fr)
            return f, t
        if op == ">":
            return self.compare([c[0], c[1], "<", c[4], c[3]], b, a, st, fr)
        if op == ">=":
            t, f = self.compare([c[0], c[1], "<", c[3], c[4]], a, b, st, fr)
            return f, t
        if op == "<=":
            t, f = self.compare([c[0], c[1], "<", c[4], c[3]], b, a, st, fr)
            return f, t
        if a[0] == "k" and b[0] == "k":
            r = (a[1] == b[1]) if op == "==" else (a[1] < b[1])
            return ([st], []) if r else ([], [st])
        if op == "==":
            if a == b and a[0] in ("k", "nul", "p", "nn"):
                return [st], []
            for u, w, e in ((a, b, c[3]), (b, a, c[4])):
                if w == NUL:
                    t, f = self.truth(e, u, st, fr)
                    return f, t
                if w[0] == "k" and self.ltype(e) == "bool":
                    t, f = self.truth(e, u, st, fr)
                    return (t, f) if w[1] else (f, t)
            if a[0] == "s" and b[0] == "s":
                return ([st], []) if a == b else ([], [st])
            if {a[0], b[0]} == {"nul", "nn"}:
                return [], [st]
        if op == "<" and a == b and a[0] == "p":
            return [], [st]
        key = ("==", min(a, b, key=repr), max(a, b, key=repr)) if op == "==" else ("<", a, b)
        r = st.facts.get(key)
        if r is True:
            return [st], []
        if r is False:
            return [], [st]
        t, f = st, st
        # equality with a constant refines a tracked location
        if op == "==":
            for w, e in ((b, c[3]), (a, c[4])):
                if w[0] == "k":
                    p, typ = self.lv(e, st, fr)
                    if p is not None and self.track(p, typ) and typ != "bool":
                        t = t.w(p, w)
        if norm_atom(c) in fr.dup:
            t = t.fact(key, True); f = f.fact(key, False)
        return [t], [f]

    # ---- calls --------------------------------------------------------------------------------------------------
    def call(self, e, st, fr, xs):
        key, obj, args = e[2], e[3], e[4]
        qn = name_of(key)
        # receivers
        recvs = [(None, st)]
        if obj is not None:
            recvs = self.objpath(obj, st, fr, xs)
        out = []
        for rp, x in recvs:
            rv = rp
            for vs, y in self.evargs(args, x, fr, xs):
                out += self.call1(e, key, qn, rp, vs, y, fr, xs)
        return dedupe2(out)

    def call1(self, e, key, qn, rp, vs, st, fr, xs):
        # exception objects
        if qn == "LuceneException::throwException":
            v = self.rdv(e[3], st, fr)
            if v == NOEXC:
                return [(VOID, st)]
            if v[0] == "exc":
                xs.append((v[1], st)); return []
            xs.append((("any",), st))
            return [(VOID, st)]
        if qn == "LuceneException::isNull":
            v = self.rdv(e[3], st, fr)
            if v == NOEXC:
                return [(TRUE, st)]
            if v[0] == "exc":
                return [(FALSE, st)]
        if qn == "LuceneException::getType":
            v = self.rdv(e[3], st, fr)
            if v == NOEXC:
                return [(FALSE, st)]
            if v[0] == "exc" and v[1][0] not in ("any", "std"):
                en = self.db.enums.get("LuceneException::ExceptionType")
                if en:
                    for nm, val in en[1]:
                        if nm == v[1][0]:
                            return [(("k", int(val)), st)]
        if qn == "boost::shared_ptr::reset" and not e[4]:
            p, typ = self.lv(e[3], st, fr)
            if p is not None:
                return [(VOID, self.assign(p, NUL, st, e, fr, typ))]
        if qn in ("boost::weak_ptr::lock", "boost::enable_shared_from_this::shared_from_this"):
            return [(("p", rp), st)]
        if qn == "boost::shared_ptr::get":
            return [(self.rdv(e[3], st, fr), st)]
        if qn == "LuceneObject::shared_from_this" or qn.endswith("::shared_from_this"):
            return [(("p", rp), st)]
        if qn in ("std::move", "std::addressof", "boost::ref", "std::forward") and vs:
            return [(vs[0], st)]
        r = self.on_call(e, key, rp, vs, st, fr, xs)
        if r is not None:
            return r
        st = self.pre_call(e, key, rp, vs, st, fr)
        if st is None:
            return []
        cls = None
        if e[3] is not None and e[3][0] == "this":
            cls = fr.cls
        ts = self.targets(e, cls, rp, st, fr)
        if len(ts) == 1 and ts[0].body is not None and ts[0].key not in fr.stack and fr.id < self.maxdepth and \
                (self.inline(ts[0], e, st, fr) or self.local_helper(ts[0], e, fr)):
            res = self.do_inline(ts[0], e, rp, vs, st, fr, xs, cls)
            return [(v, self.after_call(e, key, rp, vs, x, fr)) for v, x in res]
        if len(ts) > 1 and self.inline_many(ts, e, st, fr):
            out = []
            for t in ts:
                if t.body is not None and t.key not in fr.stack and fr.id < self.maxdepth:
                    out += self.do_inline(t, e, rp, vs, st, fr, xs, t.cls)
            return [(v, self.after_call(e, key, rp, vs, x, fr)) for v, x in dedupe2(out)]
        return self.opaque(e, key, rp, vs, st, fr, xs, ts)

    def local_helper(self, fn, e, fr):
        """a small function that belongs to the implementation of the one that calls it: free or static, in the same file"""
        if e[0] != "call" or e[3] is not None or fn.file != fr.fn.file or "::" in fn.qn and (not fn.cls or fn.acc == "public" or not fr.fn.cls or not self.db.isa(fr.fn.cls, fn.cls)):
            return False
        m = self.db._memo.setdefault("small", {})
        if fn.key not in m:
            m[fn.key] = sum(1 for _ in walk(fn.body)) < 250
        return m[fn.key]

    def inline_many(self, ts, e, st, fr):
        return False

    def targets(self, e, cls, rp, st, fr):
        return self.db.targets(e, cls)

    def opaque(self, e, key, rp, vs, st, fr, xs, ts):
        y = st
        if self.may_throw(e, ts, st, fr):
            xs.append((self.anyexc(e, key, fr), self.on_throw(e, key, rp, vs, st, fr)))
        y = self.havoc(e, ts, y, fr)
        y = self.after_call(e, key, rp, vs, y, fr)
        return [(self.result(e, key, rp, vs, y, fr), y)]

    origins = False

    def anyexc(self, e, key, fr):
        if self.origins:
            return ("any", "@%s<%s" % (name_of(key), fr.fn.qn))
        return ("any",)

    def on_throw(self, e, key, rp, vs, st, fr):
        """state on the exceptional edge of a call that was not inlined"""
        return st

    def result(self, e, key, rp, vs, st, fr):
        return self.site(e, fr)

    def rdv(self, e, st, fr):
        r = self.ev(e, st, fr, [])
        return r[0][0] if r else ("u", id(e), fr.id)

    def havoc(self, e, ts, st, fr):
        """forget tracked fields the callee may assign and locals passed by reference"""
        key = id(e)
        mod = self._nodemod.get(key)
        if mod is None:
            mod = frozenset()
            if ts:
                mod = frozenset().union(*[self._mod.get(t.key, ()) for t in ts])
            self._nodemod[key] = mod
        refs = set()
        for t in ts[:1]:
            for p, a in zip(t.params, e[4]):
                if p[2] and is_node(a) and a[0] == "var":
                    refs.add(fr.refs.get(a[2], ("v", a[2], fr.id)))
        if mod or refs:
            def dead(p):
                return (p[0] == "f" and p[2] in mod and self.havocable(p)) or (p[0] == "g" and p[1] in mod) or p in refs
            st = self.forget(st, dead)
        return st

    stable_fields = frozenset()

    def havocable(self, p):
        return p[2] not in self.stable_fields

    def do_inline(self, t, e, rp, vs, st, fr, xs, cls=None):
        self.inlined.add(t.key)
        sub_cls = cls if (cls is not None and t.cls is not None and self.db.isa(cls, t.cls)) else t.cls
        this = rp if rp is not None else ("this?",)
        refs = {}
        env_add = {}
        args = e[4] if e[0] == "call" else e[3]
        nid = fr.id + 1
        for p, a, v in zip(t.params, args, vs):
            if p[2] and is_node(a) and a[0] in ("var", "field", "gvar"):
                r = self.evpath(a, st, fr, [])
                if len(r) == 1:
                    refs[p[0]] = r[0][0]
                    continue
            if v[0] == "u" and len(v) == 3 and v[1] != "old" and p[1] == "bool":
                continue
            env_add[("v", p[0], nid)] = v
        mk = (t.key, this, sub_cls, nid, tuple(sorted(env_add.items(), key=repr)), tuple(sorted(refs.items(), key=repr)),
              st.key(), tuple(self.curexc[-1:]))
        r = self.memo.get(mk)
        if r is None:
            env = dict(st.env); env.update(env_add)
            f2 = Frame(t, this, sub_cls, nid, fr.stack + (t.key,), refs, dup_atoms(t), fr)
            s2 = St(env, st.facts, st.locks, st.auto)
            o = self.enter(t, s2, f2)
            dead = lambda p: p[0] == "v" and p[2] >= nid
            res = []
            for x in o.N:
                o.R.append((VOID, x))
            for v, x in o.R:
                if mentions(v, dead):
                    v = ("u", id(e), fr.id)
                res.append((v, self.forget(x, dead)))
            ex = [(v, self.forget(x, dead)) for v, x in o.X]
            r = (dedupe2(res), dedupe2(ex))
            self.memo[mk] = r
        xs += r[1]
        return r[0]

    def enter(self, t, st, fr):
        return self.ex(t.body, st, fr)

    def new(self, e, st, fr, xs):
        out = []
        for vs, x in self.evargs(e[3], st, fr, xs):
            r = self.on_new(e, vs, x, fr, xs)
            if r is not None:
                out += r
                continue
            ts = self.db.ctors_run(e)
            if self.may_throw(e, ts, x, fr):
                xs.append((self.anyexc(e, e[2], fr), self.on_throw(e, e[2], None, vs, x, fr)))
            x = self.havoc_new(e, ts, x, fr)
            out.append((("nn", id(e), fr.id), x))
        return out

    def on_new(self, e, vs, st, fr, xs):
        return None

    def havoc_new(self, e, ts, st, fr):
        return st


def depth_of(v):
    if v and v[0] == "op":
        return 1 + max(depth_of(x) for x in v[2:])
    return 0


_counters = {}


def loop_counters(*parts):
    """variables stepped inside a loop"""
    k = tuple(id(p) for p in parts)
    r = _counters.get(k)
    if r is None:
        r = set()
        for p in parts:
            if p is None:
                continue
            for n in walk(p):
                t = None
                if n[0] == "un" and ("++" in n[2] or "--" in n[2]):
                    t = n[3]
                elif n[0] == "asg":
                    t = n[3]
                if t is not None and t[0] == "var":
                    r.add(t[2])
        _counters[k] = r
    return r


def block_decls(b):
    for s in b[2]:
        if not s:
            continue
        if s[0] == "decl":
            yield s
        elif s[0] == "decls":
            yield from s[2]
        elif s[0] in ("case", "default", "label"):
            t = s[-1]
            if is_node(t) and t[0] == "decl":
                yield t


def throwing_set(d, calm=frozenset()):
    """functions from which a Lucene exception other than a programming error may escape (call-graph closure)"""
    mk = ("throwing", calm)
    if mk in d._memo:
        return d._memo[mk]

    def base(f):
        if f.qn.startswith("LuceneException::") or f.qn in calm:
            return False
        for n in d.nodes(f):
            if n[0] == "throw":
                k = d.throw_kind(n[2])[0]
                if k not in PROGRAMMING:
                    return True
        return False
    s = {f.key for f in d.fns.values() if base(f)}
    g, rev = d.callgraph()
    st = list(s)
    while st:
        k = st.pop()
        for c in rev.get(k, ()):
            if c not in s and not c.startswith("LuceneException::") and name_of(c) not in calm:
                s.add(c); st.append(c)
    d._memo[mk] = s
    return s
