"""Registry of properties and the rules that decide them."""
import importlib, pkgutil

TRUST = ["clang 18 front end (parsing, name and overload resolution, types)",
         "tool/lppx.cpp (syntax tree to facts), lpp/db.py (class hierarchy, call graph)"]


class P:
    def __init__(self, id, title, statement, over, quant, why, files, mech, technique, note, run, trusted=(), state=None, thorough=False):
        self.id = id; self.title = title; self.statement = statement; self.over = over; self.quant = quant
        self.why = why; self.files = files; self.mech = mech; self.technique = technique; self.note = note
        self.run = run; self.trusted = TRUST + list(trusted); self.thorough = thorough

    def json(self):
        return {"id": self.id, "title": self.title, "statement": self.statement,
                "quantifier": {"over": self.over, "text": self.quant}, "why_tests_cant": self.why,
                "anchors": {"files": self.files, "mechanism": [{"name": a, "where": b} for a, b in self.mech]}}


def props():
    from . import rules
    out = {}
    for m in sorted(pkgutil.iter_modules(rules.__path__), key=lambda m: m.name):
        mod = importlib.import_module("lpp.rules." + m.name)
        for p in getattr(mod, "PROPS", ()):
            assert p.id not in out, p.id
            out[p.id] = p
    return out
