"""Failures reported by a return value or a stream state: every path on which one was reported must end in an error or in a
failure value of its own."""
from .db import db, walk, is_node, name_of
from .mustset import Must
from .sim import Sim, TRUE, FALSE, NUL

# operations that report a failure by their value: name -> (success values, failure value)
PRIM = {"FileUtils::" + n: FALSE for n in ("removeFile", "createDirectory", "setFileLength", "copyFile", "listDirectory", "removeDirectory", "copyDirectory")}
NEG = ("k", -1)
OPS = {"std::basic_ostream::write", "std::basic_ostream::flush", "std::basic_ostream::seekp", "std::basic_ostream::put", "std::basic_istream::seekg"}
STATE = {"std::basic_ios::good": TRUE, "std::basic_ios::fail": FALSE, "std::basic_ios::bad": FALSE, "std::basic_ios::operator!": FALSE, "std::basic_ios::operator bool": TRUE}
FILES = ("OutputFile", "InputFile")


class StatusSim(Sim):
    """auto: (reported failure or None, stream operation whose state has not been looked at or None)"""
    cap = 300

    def __init__(self, cls, file):
        super().__init__()
        self.c = cls; self.file = file; self.n = 0

    def track(self, path, typ):
        return path[0] == "v" and (typ in ("bool", "int", "long") or typ == "LuceneException")

    def call_relevant(self, n):
        return True

    def may_throw(self, node, targets, st, fr):
        return False

    def inline(self, fn, node, st, fr):
        q = name_of(fn.key)
        if q in PRIM or q == "InputFile::read":
            return False
        return fn.cls is not None and (fn.cls in FILES or fn.cls == self.c or self.c is not None and self.db.isa(self.c, fn.cls)) or fn.cls is None and fn.file == self.file

    def on_call(self, e, key, rp, vs, st, fr, xs):
        q = name_of(key); f, p = st.auto
        if q in PRIM:
            self.n += 1
            return [(TRUE, st), (PRIM[q], st.a((f or (e[1], q, fr.fn.file, fr.fn.qn), p)))]
        if q == "InputFile::read":
            self.n += 1
            xs.append((("std",), st))
            return [(("k", 1), st), (NEG, st.a((f or (e[1], q, fr.fn.file, fr.fn.qn), p)))]
        if q in OPS:
            self.n += 1
            return [(("u", "ostream", e[1]), st.a((f, p or (e[1], q, fr.fn.file, fr.fn.qn))))]
        if q in STATE:
            ok = STATE[q]; no = FALSE if ok == TRUE else TRUE
            if p is None:
                return None
            return [(ok, st.a((f, None))), (no, st.a((f or p, None)))]
        if q in ("std::basic_ofstream::is_open", "std::basic_ifstream::is_open"):
            return [(TRUE, st), (FALSE, st)]
        if q == "std::basic_ios::clear" and p is not None:
            return [(("void",), st.a((f or p, None)))]
        return None


FAILS = (FALSE, NEG, NUL)


def entries(d):
    base = set(PRIM) | OPS | {"InputFile::read"}
    direct = {}
    for f in d.fns.values():
        if f.file.startswith(("src/test", "src/demo")) or f.body is None or f.file == "src/core/util/FileUtils.cpp":
            continue
        if any(x[0] == "call" and name_of(x[2]) in base for x in d.calls(f)):
            direct[f.key] = f
    out = {}
    for k, f in direct.items():
        if f.cls in FILES:
            for g in d.callers(k):
                g = d.fns.get(g) if isinstance(g, str) else g
                if g is not None and g.cls not in FILES and not g.file.startswith("src/test"):
                    out[g.key] = g
        elif any(d.isa(f.cls, x) for x in ("Reader", "InfoStream")) if f.cls else False:
            continue
        elif f.kind == "dtor" or f.qn.endswith("::main"):       # command-line tools print
            continue
        else:
            out[k] = f
    return out


def run(res):
    d = db()
    n = 0
    for k, f in sorted(entries(d).items()):
        s = StatusSim(f.cls, f.file)
        o = s.run(f, auto=(None, None), cls=f.cls)
        if not s.n:
            continue
        n += 1
        res.ob("%s: a failure reported by value or stream state reaches the caller" % f.qn)
        for v, x in o.R:
            w, p = x.auto
            if p is not None:
                res.bad("%s/unchecked" % f.qn, "%s:%d %s returns without looking at the outcome of %s (%s:%d)" % (f.file, f.line, f.qn, p[1], p[2], p[0]))
            if w is not None and v not in FAILS:
                res.bad("%s/status dropped" % f.qn, "%s:%d %s can return as if it had succeeded after %s (%s:%d) reported a failure" % (f.file, f.line, f.qn, w[1], w[2], w[0]))
    res.floor("functions that use failure statuses", n, 8)


def settles(s):
    """does every path through s throw, or keep an exception in a variable of the function?"""
    if not is_node(s):
        return False
    k = s[0]
    if k in ("block", "decls"):
        return any(settles(x) for x in s[2] if x)
    if k == "if":
        return settles(s[3]) and s[4] is not None and settles(s[4])
    if k in ("throw", "rethrow"):
        return True
    if k == "expr" and is_node(s[2]):
        e = s[2]
        if e[0] in ("throw", "rethrow"):
            return True
        if e[0] == "call" and name_of(e[2]).endswith("throw_exception"):
            return True
        if e[0] == "call":
            ts = db().targets(e)
            if ts and all(x.body is not None and Must(x.cls).fn(x) is None for x in ts):
                return True         # a helper that always throws
        if e[0] == "asg" and is_node(e[3]) and e[3][-1] == "LuceneException" and not (e[4][0] == "ctor" and len(e[4][4]) == 2 and e[4][4][1][0] == "enum"):
            return True
    if k == "try":
        return settles(s[2]) and all(settles(h[-1]) for h in s[3])
    return False


def oom(res):
    """running out of memory is reported like any other failure"""
    d = db()
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.file.startswith(("src/test", "src/demo")):
            continue
        for t in walk(f.body):
            if t[0] != "try":
                continue
            for h in t[3]:
                if h[1].startswith("std::"):
                    n += 1
                    res.ob("%s:%d %s: the handler for %s raises or keeps an error" % (f.file, h[0], f.qn, h[1]))
                    if not settles(h[-1]):
                        res.bad("%s/catch(%s)" % (f.qn, h[1]), "%s:%d %s: the handler for %s can end without raising an error or keeping one to raise" % (f.file, h[0], f.qn, h[1]))
    res.floor("handlers of standard exceptions", n, 10)
