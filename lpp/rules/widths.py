"""C32: positions and sizes of files keep their 64 bits."""
from ..reg import P
from ..db import db, is_node, name_of

# quantities that are not file positions or sizes, or are bounded by what the format stores
REVIEWED_VALUES = {
    "IndexWriter::WRITE_LOCK_TIMEOUT": "a time",
    "IndexWriter::writeLockTimeout": "a time",
    "LogMergePolicy::minMergeSize": "a number of documents (LogDocMergePolicy), set from 32 bits",
    "SegmentTermEnum::size": "number of index terms, an array of that length is allocated",
}
# functions whose purpose is to take a number apart
SPLIT = ("IndexOutput::writeLong", "IndexOutput::writeVLong")
# accounts of memory in use, bounded by the RAM buffer (at most 2 GB)
ACCOUNTS = ("DocumentsWriter", "TermsHash", "ByteBlockAllocator")
BOUNDED = {"%", "&", "/", ">>", "-"}


def text(e):
    if not is_node(e):
        return str(e)
    k = e[0]
    if k == "var":
        return e[2]
    if k == "field":
        return text(e[2]) + "." + e[3]
    if k in ("arrow", "star"):
        return text(e[2])
    if k == "call":
        return (text(e[3]) + "." if is_node(e[3]) else "") + name_of(e[2]) + "(" + ",".join(text(a) for a in e[4]) + ")"
    return "(" + " ".join([k] + [text(x) for x in e[2:]]) + ")"


def uncast(e):
    while is_node(e) and e[0] == "cast":
        e = e[-1]
    return e


class Widths:
    def __init__(self, d, f):
        self.d = d; self.f = f
        self.cmp = set(); self.decls = {}; asgs = set()
        for x in d.nodes(f):
            if x[0] == "bin" and x[2] in ("<", "<=", ">", ">="):
                for a, b in ((x[3], x[4]), (x[4], x[3])):
                    if not self.long(b):
                        self.cmp.add(text(a))
            elif x[0] == "decl" and is_node(x[4]):
                self.decls[x[2]] = x[4]
            elif x[0] == "asg" and x[3][0] == "var":
                asgs.add(x[3][2])
            elif x[0] == "un" and x[2] in ("pre++", "post++", "pre--", "post--") and x[3][0] == "var":
                asgs.add(x[3][2])
        for x in d.nodes(f):
            # if (v > limit) v = limit;
            if x[0] == "if" and is_node(x[2]) and x[2][0] == "bin" and x[2][2] in ("<", "<=", ">", ">="):
                s = x[3]
                while is_node(s) and s[0] == "block" and len(s[2]) == 1:
                    s = s[2][0]
                if is_node(s) and s[0] == "expr":
                    s = s[2]
                big, sml = (x[2][3], x[2][4]) if x[2][2][0] == ">" else (x[2][4], x[2][3])
                if is_node(s) and s[0] == "asg" and text(s[3]) == text(big) and text(s[4]) == text(sml):
                    self.cmp.add(text(big))
        for a in asgs:
            self.decls.pop(a, None)

    def bounded(self, e, depth=0):
        """why the value needs no more than 32 bits"""
        if not is_node(e):
            return None
        k = e[0]
        if text(e) in self.cmp:
            return "compared with a bound before"
        if k == "bin" and e[2] in BOUNDED:
            return {"-": "distance of two positions", "%": "remainder", "&": "masked"}.get(e[2], "number of fixed-size entries")
        if k == "bin" and e[2] in ("+", "*"):
            a, b = self.small(e[3]), self.small(e[4])
            return "computed from bounded values" if (a or self.bounded(e[3], depth)) and (b or self.bounded(e[4], depth)) else None
        if k == "cond" and is_node(e[2]) and e[2][0] == "bin" and e[2][2] in ("<", "<=", ">", ">="):
            sml, big = (e[2][3], e[2][4]) if e[2][2][0] == "<" else (e[2][4], e[2][3])
            if text(uncast(e[3])) == text(uncast(sml)) and text(uncast(e[4])) == text(uncast(big)):
                return "limited by min"
        if k == "cond":
            a = self.bounded(e[3], depth) or self.small(e[3]); b = self.bounded(e[4], depth) or self.small(e[4])
            return a and b
        if k == "call" and name_of(e[2]).split("::")[-1] in ("min", "max") and len(e[4]) == 2:
            return "limited by min" if name_of(e[2]).endswith("min") else None
        if k == "cast":
            return self.bounded(e[-1], depth)
        if k == "var" and e[2] in self.decls and depth < 4:
            return self.bounded(self.decls[e[2]], depth + 1)
        if k in ("field", "gvar"):
            n = e[3] if k == "field" else e[2]
            return REVIEWED_VALUES.get(n)
        return None

    def long(self, e):
        """does the other side of a comparison itself have 64 bits"""
        if not is_node(e):
            return False
        if e[0] == "field":
            return "long" in e[4]
        if e[0] in ("var", "gvar"):
            return "long" in e[3]
        if e[0] == "cast":
            return "long" in str(e[2]) or "int64" in str(e[2])
        if e[0] == "call":
            return any("long" in t.ret for t in self.d.targets(e))
        return e[0] == "bin" and (self.long(e[3]) or self.long(e[4]))

    def small(self, e):
        return is_node(e) and e[0] in ("int", "lit", "char") or is_node(e) and e[0] == "var" and e[3] in ("int", "short", "unsigned char")


def run(res, tier):
    d = db()
    n = w = fns = 0
    for f in sorted(d.fns.values(), key=lambda f: f.key):
        if f.body is None or not f.file.startswith(("src/core/index", "src/core/store", "include/lucene++/", "src/core/include", "src/core/util/FileUtils")):
            continue
        if f.file.startswith(("include", "src/core/include")) and not (f.cls or "").endswith(("Input", "Output", "InputStream", "OutputStream", "Directory", "Reader", "Writer", "File")):
            continue
        fns += 1
        if f.name not in ("hashCode", "compareTo") and f.qn not in SPLIT:
            W = Widths(d, f) if f.narrow else None
            for l, a, b, e in f.narrow:
                if "size" in a or "difference" in a:
                    continue
                n += 1
                why = W.bounded(e)
                res.ob("%s:%d %s narrows a %s (%s)" % (f.file, l, f.qn, a, why))
                if not why:
                    res.bad("%s/narrow/%s" % (f.qn, short(e)), "%s:%d %s cuts the 64-bit value %s down to %s: positions and sizes beyond 2^31 are lost" % (f.file, l, f.qn, short(e), b))
        if f.cls not in ACCOUNTS and f.name != "hashCode":
            for l, a, b, e in f.widen:
                w += 1
                res.bad("%s/product/%s" % (f.qn, short(e)), "%s:%d %s computes %s in 32 bits and then uses it as a 64-bit position or size: it overflows beyond 2^31" % (f.file, l, f.qn, short(e)))
        for x in d.nodes(f):
            if x[0] == "call" and name_of(x[2]).split("::")[-1] in ("seek", "setLength", "writeLong", "writeVLong") and x[4]:
                res.ob("%s:%d %s: argument computed in 64 bits" % (f.file, x[1], f.qn))
    res.count("conversions of 64-bit values examined", n)
    res.count("functions examined", fns)
    res.floor("conversions of 64-bit values examined", n, 15)
    res.floor("functions examined", fns, 900)
    # the entry points of every stream speak 64 bits
    t = 0
    for c in sorted(d.classes):
        if d.classes[c].file.startswith(("src/test", "src/contrib", "src/demo")) or c == "SkipBuffer":      # a copy in memory
            continue
        stream = c in ("IndexInput", "IndexOutput", "RAMFile", "Directory") or {"IndexInput", "IndexOutput", "Directory"} & set(d.supers(c))
        for x in d.fields(c):
            nm = x[0].rpartition("::")[2].lower()
            if nm.startswith(("set<", "map<")) or "vector" in x[1]:
                continue
            if stream and nm.strip("_") in ("length", "filelength", "bufferstart", "fileoffset", "sizeinbytes", "position", "filepointer") or nm.endswith(("pointer", "filelength")) and nm not in ("pointer", "charpointer"):
                t += 1
                res.ob("%s is %s" % (x[0], x[1]))
                if x[1].split("<")[-1].strip("> ") in ("int", "unsigned int", "short"):
                    res.bad("%s/type" % x[0], "%s:%d %s, a position or size of a file, has the type %s" % (d.classes[c].file, x[2], x[0], x[1]))
    res.count("fields that hold positions or sizes", t)
    res.floor("fields that hold positions or sizes", t, 8)


def short(e):
    if not is_node(e):
        return str(e)
    k = e[0]
    if k == "var":
        return e[2].split("@")[0]
    if k == "field":
        return e[3].rpartition("::")[2]
    if k == "gvar":
        return e[2].rpartition("::")[2]
    if k in ("arrow", "star"):
        return short(e[2])
    if k == "bin":
        return short(e[3]) + " " + e[2] + " " + short(e[4])
    if k == "call":
        return name_of(e[2]).split("::")[-1] + "()"
    if k == "cast":
        return short(e[-1])
    if k in ("int", "lit"):
        return str(e[2])
    return k


PROPS = [P(
    "C32", "File positions and sizes are never cut to 32 bits",
    "Wherever the index and the store compute, keep or pass on a position in a file, a length of a file or stream, or a size in bytes read from "
    "a file, they do so in 64 bits: no such value is narrowed to a 32-bit integer unless it is first bounded (a remainder, a distance between two "
    "positions, a minimum with a buffer size), and no product that makes up a position is multiplied in 32 bits.",
    "inputs", "every integer conversion and every widened product in src/core/index and src/core/store",
    "tests write files of a few kilobytes; a truncated position shows only beyond two gigabytes or 268 million documents",
    ["src/core/store", "src/core/index/FieldsReader.cpp", "src/core/index/TermVectorsReader.cpp", "src/core/index/TermInfosReader.cpp", "src/core/index/MultiLevelSkipListReader.cpp"],
    [("seek, getFilePointer, length", "IndexInput, IndexOutput and their subclasses"), ("conversions", "every implicit and explicit integer conversion, from the type checker")],
    "type-level query: every integer conversion in the type-checked tree, with a bounding analysis of the narrowed expression",
    "a distance between two positions is taken to fit 32 bits (one document, one buffer, one skip list), as the format assumes; memory accounts bounded by the RAM buffer are left out", run)]
