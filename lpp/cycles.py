"""Ownership: which objects keep which others alive (strong pointers), and whether an object ends up keeping itself alive."""
import collections, re
from .db import db, is_node, name_of, strip_type

# may stand for anything: not followed
APART = ("SpansCell::spans",)        # the spans of a sub-query, never the spans the cell belongs to
GENERIC = ("LuceneObject", "Object", "LuceneSync", "Synchronize")


def strong_targets(t):
    """classes an object of this type keeps alive (weak pointers, raw pointers and references do not)"""
    out = set()
    i = 0
    # drop W<...>
    s = ""
    while i < len(t):
        if t.startswith("W<", i) and (i == 0 or not (t[i - 1].isalnum() or t[i - 1] == "_")):
            depth = 0
            i += 1
            while i < len(t):
                if t[i] == "<":
                    depth += 1
                elif t[i] == ">":
                    depth -= 1
                    if depth == 0:
                        break
                i += 1
            i += 1
            continue
        s += t[i]; i += 1
    for m in re.finditer(r"\bP<(?:const )?([A-Za-z_]\w*(?:<[^<>]*>)?)", s):
        out.add(m.group(1))
    return out


class Own:
    def __init__(self):
        self.d = d = db()
        self.edges = collections.defaultdict(dict)      # class -> {class: field}
        for c in d.classes:
            for f in d.fields(c):
                for t in strong_targets(f[1]):
                    if t in d.classes and t not in GENERIC and f[0] not in APART:
                        self.edges[c].setdefault(t, f[0])
        self.subs = collections.defaultdict(set)
        for c in d.classes:
            for s in d.supers(c):
                self.subs[s].add(c)
        self.kept = {}

    def reach(self, y, z):
        """path of strong fields from an object of class y to one of class z"""
        prev = {y: None}
        q = collections.deque([y])
        first = True
        while q:
            c = q.popleft()
            if c == z and not first:
                p = []
                while prev[c]:
                    p.append(prev[c][1]); c = prev[c][0]
                return p[::-1]
            first = False
            for k in [c] + list(self.d.supers(c)):
                for t, f in self.edges.get(k, {}).items():
                    for n in [t] + sorted(self.subs.get(t, ())):
                        if n not in prev:
                            prev[n] = (c, f); q.append(n)
                        elif n == z == y:
                            return [f]
        return None

    # ---- which parameters of a constructor end up in a strong field of the new object
    def keeps(self, key, depth=0):
        if key in self.kept:
            return self.kept[key]
        self.kept[key] = {}
        f = self.d.fns.get(key)
        out = {}
        if f is not None and f.body is not None:
            names = {p[0]: i for i, p in enumerate(f.params)}

            def param(e):
                while is_node(e):
                    if e[0] == "var":
                        return names.get(e[2])
                    if e[0] == "ctor" and len(e[4]) == 1:
                        e = e[4][0]
                    elif e[0] == "cast":
                        e = e[-1]
                    elif e[0] == "call" and name_of(e[2]).split("::")[-1] in ("dynamic_pointer_cast", "static_pointer_cast") and e[4]:
                        e = e[4][0]
                    elif e[0] == "call" and name_of(e[2]).split("::")[-1] in ("lock", "get", "shared_from_this", "__shared_from_this") and is_node(e[3]):
                        e = e[3]
                    elif e[0] in ("arrow", "star"):
                        e = e[2]
                    else:
                        return None
                return None

            def own(e):
                return is_node(e) and e[0] == "field" and is_node(e[2]) and (e[2][0] == "this" or e[2][0] == "arrow" and e[2][2][0] == "this")
            for n in self.d.nodes(f):
                if n[0] == "asg" and own(n[3]) and strong_targets(n[3][4]):
                    i = param(n[4])
                    if i is not None:
                        out[i] = n[3][3]
                elif n[0] == "call" and is_node(n[3]) and own(n[3]) and name_of(n[2]).split("::")[-1] in ("add", "put", "addFirst", "addLast", "push_back"):
                    if strong_targets(n[3][4]):
                        for a in n[4]:
                            i = param(a)
                            if i is not None:
                                out[i] = n[3][3]
                elif depth < 4 and n[0] == "call" and (n[3] is None or n[3][0] == "this" or n[3][0] == "arrow" and n[3][2][0] == "this"):
                    for t in self.d.targets(n):
                        k = self.keeps(t.key, depth + 1)
                        for j, a in enumerate(n[4]):
                            i = param(a)
                            if i is not None and j in k:
                                out[i] = k[j]
            for x in f.inits or ():
                # [field or base, expression]
                nodes = [y for y in (x if isinstance(x, (list, tuple)) else [x]) if is_node(y)]
                fld = next((y for y in x if isinstance(y, str)), None) if isinstance(x, (list, tuple)) and not is_node(x) else None
                for y in nodes:
                    if y[0] == "ctor":
                        k = self.keeps(y[3], depth + 1)
                        for j, a in enumerate(y[4]):
                            i = param(a)
                            if i is not None and j in k:
                                out[i] = k[j]
        self.kept[key] = out
        return out


def isthis(e, al):
    while is_node(e):
        if e[0] == "ctor" and len(e[4]) == 1:
            e = e[4][0]
        elif e[0] == "cast":
            e = e[-1]
        elif e[0] == "var":
            return e[2] in al
        elif e[0] == "call":
            nm = name_of(e[2]).split("::")[-1]
            if nm in ("dynamic_pointer_cast", "static_pointer_cast") and e[4]:
                e = e[4][0]
            elif nm in ("shared_from_this", "__shared_from_this"):
                return not is_node(e[3]) or e[3][0] == "this" or e[3][0] == "arrow" and e[3][2][0] == "this"
            else:
                return False
        else:
            return False
    return False


def class_circles(O):
    """circles of strong fields in which every object is one that another was built with.
    Kinds of which some member wraps another member (queries, filters, readers, streams ...) are composed by the user and not followed."""
    d = O.d
    kinds = set()
    for c in d.classes:
        for k in [c] + list(d.supers(c)):
            for t in O.edges.get(k, {}):
                if t in d.supers(c) or t == c and O.subs.get(t):
                    kinds.add(t)
    kinds |= {s for t in kinds for s in O.subs.get(t, ()) if O.subs.get(s)}
    kinds = {k for k in kinds if not k.startswith("DocFieldConsumer")}      # the indexing chain is built by the writer, not by the user
    edges = collections.defaultdict(dict)
    n = 0
    for c in d.classes:
        for k in [c] + list(d.supers(c)):
            for t, f in O.edges.get(k, {}).items():
                n += 1
                if t in kinds or t == c:
                    continue
                for m in [t] + sorted(O.subs.get(t, ())):
                    if m != c:
                        edges[c].setdefault(m, f)
    out = {}
    for c in sorted(edges):
        prev = {c: None}
        q = collections.deque([c])
        while q:
            x = q.popleft()
            for y, f in sorted(edges.get(x, {}).items()):
                if y == c:
                    p = [f]
                    while prev[x]:
                        p.append(prev[x][1]); x = prev[x][0]
                    p = p[::-1]
                    out.setdefault(frozenset(p), p)
                    q.clear()
                    break
                if y not in prev:
                    prev[y] = (x, f); q.append(y)
    return n, kinds, list(out.values())
