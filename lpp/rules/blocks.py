"""C43: block operations on memory cover whole elements and do not stop at a value in the data."""
from ..reg import P
from ..db import db, walk, is_node, name_of

BYTES = {"memcpy": (0, 1, 2), "memmove": (0, 1, 2), "memcmp": (0, 1, 2), "memset": (0, None, 2), "memchr": (0, None, 2)}
STOPS = ("strcpy", "strncpy", "wcscpy", "wcsncpy", "strcmp", "strncmp", "wcscmp", "wcsncmp", "strcat", "wcscat", "strncat", "wcsncat", "strdup", "wcsdup")
WIDE = {"wchar_t": 4, "int": 4, "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "long long": 8, "double": 8, "short": 2,
        "unsigned short": 2, "char": 1, "signed char": 1, "unsigned char": 1, "bool": 1}


def elem(e, d):
    """type of the elements a pointer expression points to"""
    while is_node(e) and e[0] == "cast":
        e = e[-1]
    if not is_node(e):
        return None
    if e[0] in ("var", "field", "param", "gvar"):
        t = e[-1]
        return point(t)
    if e[0] == "bin" and e[2] in ("+", "-"):
        return elem(e[3], d) or elem(e[4], d)
    if e[0] == "un" and e[2] == "&":
        x = e[3]
        if is_node(x) and x[0] in ("var", "field", "gvar"):
            return x[-1]
        if is_node(x) and x[0] == "idx":
            return point(x[-1]) or elem(x[2], d)
    if e[0] == "un":
        return elem(e[3], d)
    if e[0] == "cond":
        return elem(e[3], d) or elem(e[4], d)
    if e[0] == "call":
        nm = name_of(e[2]).split("::")[-1]
        if nm in ("get", "c_str", "data"):
            t = point(e[-1])
            if t:
                return t
        for t in d.targets(e):
            r = point(t.ret)
            if r:
                return r
    return None


def point(t):
    if not isinstance(t, str):
        return None
    if t.endswith("*"):
        return t[:-1].strip()
    if t.startswith(("P<", "W<")):
        return t[2:-1]
    if t.startswith("Array<") and t.endswith(">"):
        return t[6:-1]
    if t == "String":
        return "wchar_t"
    if t in ("SingleString", "std::string"):
        return "char"
    return None


def multiple(e, k, f, d, seen=()):
    """the value of e is a multiple of k on every path (flow-insensitive over the variable's definitions)"""
    while is_node(e) and e[0] == "cast":
        e = e[-1]
    if not is_node(e):
        return False
    if e[0] == "int":
        return e[2] % k == 0
    if e[0] == "bin":
        if e[2] == "*":
            return multiple(e[3], k, f, d, seen) or multiple(e[4], k, f, d, seen)
        if e[2] in ("+", "-"):
            return multiple(e[3], k, f, d, seen) and multiple(e[4], k, f, d, seen)
        if e[2] == "<<" and is_node(e[4]) and e[4][0] == "int":
            return (1 << e[4][2]) % k == 0
    if e[0] == "cond":
        return multiple(e[3], k, f, d, seen) and multiple(e[4], k, f, d, seen)
    if e[0] == "call" and name_of(e[2]).split("::")[-1] in ("min", "max") and len(e[4]) == 2:
        return all(multiple(x, k, f, d, seen) for x in e[4])
    if e[0] == "call":
        ts = [t for t in d.targets(e) if t.body is not None]
        rs = [n[2] for t in ts for n in d.nodes(t) if n[0] == "ret" and len(n) > 2]
        return bool(rs) and len(seen) < 4 and all(multiple(r, k, t, d, seen + (t.key,)) for t in ts for r in [n[2] for n in d.nodes(t) if n[0] == "ret" and len(n) > 2])
    if e[0] == "var":
        if e[2] in seen:
            return True
        if "@p" in e[2]:
            i = int(e[2].rsplit("@p", 1)[1])
            sites = [c for g in d.callers(f.key) for c in [n for n in d.nodes(d.fns[g]) if n[0] == "call"] if any(t.key == f.key for t in d.targets(c))] if f.key else []
            return bool(sites) and len(seen) < 4 and all(i < len(c[4]) and multiple(c[4][i], k, f, d, seen + (e[2],)) for c in sites)
        defs = []
        for n in d.nodes(f):
            if n[0] == "decl" and n[2] == e[2]:
                defs.append(n[4] if len(n) > 4 else None)
            if n[0] == "asg" and n[3] == e or n[0] == "asg" and is_node(n[3]) and n[3][0] == "var" and n[3][2] == e[2]:
                if n[2] == "*=":
                    if multiple(n[4], k, f, d, seen + (e[2],)):
                        return True        # scaled in place
                    defs.append(None)
                else:
                    defs.append(n[4])
        return bool(defs) and all(x is not None and multiple(x, k, f, d, seen + (e[2],)) for x in defs)
    return False


def extent(f, c, d):
    """-> element types, their size, whether the byte count of block operation c covers whole elements"""
    nm = name_of(c[2]).split("::")[-1]
    if nm not in BYTES or c[3] is not None or len(c[4]) <= BYTES[nm][2]:
        return set(), None, True
    a, b, s = BYTES[nm]
    ts = {elem(c[4][i], d) for i in (a, b) if i is not None} - {None, "void"}
    ks = {WIDE[t] for t in ts if t in WIDE}
    k = max(ks) if ks else None
    return ts, k, not (k and k > 1 and not multiple(c[4][s], k, f, d))


def run(res, tier):
    d = db()
    n = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or not f.file.startswith(("src/core", "src/contrib", "include/")):
            continue
        for c in d.nodes(f):
            if c[0] != "call":
                continue
            nm = name_of(c[2]).split("::")[-1]
            if nm in STOPS and c[3] is None and not any(t.body is not None for t in d.targets(c)):
                n += 1
                res.ob()
                res.bad("%s/%s" % (f.qn, nm), "%s:%d %s handles a run of characters with %s, which stops at the first zero in it" % (f.file, c[1], f.qn, nm))
            if nm not in BYTES or c[3] is not None or any(t.body is not None for t in d.targets(c)):
                continue
            n += 1
            ts, k, ok = extent(f, c, d)
            res.ob("%s: %s at line %d handles elements of %s" % (f.qn, nm, c[1], "/".join(sorted(ts)) or "an unknown type"))
            if not ok:
                res.bad("%s/%s" % (f.qn, nm), "%s:%d %s: the number of bytes given to %s is not a number of elements times their size (%s, %d bytes each)" % (f.file, c[1], f.qn, nm, "/".join(sorted(ts)), k))
    res.floor("block operations", n, 6)


PROPS = [P(
    "C43", "Runs of characters and numbers are copied and compared whole",
    "Wherever the library copies, moves, compares or clears a run of characters or numbers as one block of memory, the block covers whole elements: its extent in bytes is the number of elements times the size of one. No such operation on text stops early at a zero character inside the text.",
    ["inputs"], "every block operation on memory in the library, for every length and content of the run",
    "With the short, similar texts of the tests a quarter of the characters is enough to tell two terms apart or to find a suffix.",
    ["src/core/analysis", "src/core/util", "src/core/index", "include/lucene++/Array.h"],
    [("memcpy / memmove / memcmp / memset calls", "src/core, src/contrib"), ("StringReader::read", "src/core/util/StringReader.cpp")],
    "type-based extent check of block operations (element type of the pointer, divisibility of the byte count)",
    "The element type comes from the pointer expression, the byte count must be divisible by its size through every definition that reaches it; functions that stop at a zero character are not used on runs.",
    run, trusted=["lpp/rules/blocks.py", "element sizes of the target platform"])]
