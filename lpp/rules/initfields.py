"""C31: every number, flag and raw pointer of an object has a defined value once the object is constructed."""
from ..reg import P
from ..db import db
from ..mustset import Must, Exposed

SC = ("int", "bool", "double", "long", "unsigned", "char", "wchar_t", "short", "float", "unsigned char", "unsigned int",
      "unsigned long", "unsigned short", "signed char", "long long")
# set before first use by the protocol of the class, not by the constructor
LATER = {
    "BucketScorer::freq": "set for each bucket before the scorer is asked",
    "BufferedIndexInput::__buffer": "set together with buffer, which is tested first",
    "DirectoryReader::maxIndexVersion": "set by initialize for every reader that can take the write lock",
    "DocFieldProcessorPerThread::docBoost": "set at the start of every document",
    "MultiTermDocs::matchingSegmentPos": "used only with tenum, which is set together with it",
    "NumericTokenStream::value": "guarded by valSize",
    "TermScorer::freq": "set by nextDoc/advance before it is read",
    "TopScoreDocCollector::__scorer": "setScorer is called before collect",
    "ValueSourceWeight::queryNorm": "set by normalize", "ValueSourceWeight::queryWeight": "set by sumOfSquaredWeights",
}
LATER.update({"GradientFormatter::%sg%s%s" % (a, b, c): "guarded by highlightForeground/highlightBackground"
              for a in "fb" for b in "RGB" for c in ("Min", "Max")})


def run(res, tier):
    d = db()
    n = 0

    def scalar(t):
        return t in SC or t.endswith("*") or t in d.enums
    for c in sorted(d.classes.values(), key=lambda c: c.name):
        if not c.file.startswith(("src/core", "include", "src/contrib")):
            continue
        fl = [x for x in d.fields(c.name) if scalar(x[1])]
        ctors = [f for f in d.byqn.get(c.name + "::" + c.name.split("::")[-1], ()) if f.kind == "ctor"]
        if not fl or not ctors:
            continue
        m = Must(c.name); e = Exposed(c.name)
        names = {x[0] for x in fl}
        ini = d.method(c.name, "initialize()")
        late = (m.fn(ini) or frozenset()) if ini is not None else frozenset()
        for k in ctors:
            a = m.fn(k)
            e.fn(k)
            res.ob("%s reads no number, flag or pointer of the object before giving it a value" % k.key)
            for nm in sorted(e.exp.get(k.key, set()) & names):
                res.bad("%s/%s read" % (k.key, nm), "%s:%d %s can read %s before giving it a value" % (k.file, k.line, k.key, nm))
            if a is None:
                continue          # never completes
            for nm, ty, ln, st in fl:
                n += 1
                res.ob("%s: %s assigned on every path" % (k.key, nm))
                if nm in a or nm in late or nm in LATER:
                    continue
                res.bad("%s/%s" % (k.key, nm), "%s:%d %s can complete without giving %s (%s:%d) a value" % (k.file, k.line, k.key, nm, c.file, ln))
    res.floor("constructor/field pairs", n, 900)


PROPS = [P(
    "C31", "A constructed object has no undefined numbers, flags or pointers",
    "When the construction of any library object completes, through any of its constructors, each of its numbers, flags, enumerations and raw pointers has been given a value on every path. No later operation depends on what happened to be in memory.",
    ["inputs", "programs"], "every constructor of every class of the core and contrib libraries, every scalar member, every path of the constructor, its helpers and its initialisation step",
    "A forgotten initialisation usually reads as zero in tests (fresh heap pages) and as anything else in a long-running process.",
    ["src/core", "src/contrib", "include/lucene++"], [("constructors and initialize()", "all classes")],
    "definite-assignment (must) dataflow over constructors, base constructors, helpers and initialize()",
    "Scalars set by a later protocol step before first use are listed with the reason in the rule; members of class type have their own constructors. Locals are left to the compiler.",
    run, trusted=["lpp/mustset.py", "table LATER in lpp/rules/initfields.py"])]
