"""Extraction driver: builds the fact extractor, parses /repo's current working tree and returns its facts.

Facts are cached under /verif/build per translation unit, keyed by the content of the unit plus the content of every
header, so every run reflects the working tree as it is now; a cold cache only costs time."""
import glob, hashlib, json, marshal, os, re, shutil, subprocess, sys, fcntl, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LPP_REPO", "/repo")
BUILD = os.environ.get("LPP_BUILD", os.path.join(HERE, "build"))
TOOLSRC = os.path.join(HERE, "tool", "lppx.cpp")
LLVM = "/usr/lib/llvm-18"
JOBS = int(os.environ.get("LPP_JOBS", "8"))


class AnalysisError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    key = _sha(_read(TOOLSRC))
    exe = os.path.join(BUILD, "lppx-" + key[:12])
    if os.path.exists(exe):
        return exe, key
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    lib = None
    for c in (LLVM + "/lib/libclang-cpp.so.18.1", "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1"):
        if os.path.exists(c):
            lib = c
            break
    if lib is None:
        raise AnalysisError("libclang-cpp.so.18.1 not found")
    tmp = exe + ".%d" % os.getpid()
    cmd = ["clang++-18", "-O1"] + flags + ["-std=c++17", "-fno-rtti", "-w", TOOLSRC, "-o", tmp,
           "-L" + LLVM + "/lib", lib, "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the fact extractor: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe, key


CORE_DIRS = ("search", "analysis", "document", "index", "queryparser", "store", "util")
CONTRIB_DIRS = ("analyzers", "highlighter", "memory", "index", "mevc", "snowball")


def sources():
    out = []
    for d in CORE_DIRS:
        out += glob.glob(REPO + "/src/core/" + d + "/**/*.cpp", recursive=True)
    for d in CONTRIB_DIRS:
        out += glob.glob(REPO + "/src/contrib/" + d + "/**/*.cpp", recursive=True)
    return sorted(out)


HDR_DIRS = ("include/lucene++", "src/core/include", "src/contrib/include")


def headers():
    out = []
    for d in HDR_DIRS:
        out += sorted(glob.glob(REPO + "/" + d + "/*.h"))
    return out


def all_headers_for_hash():
    s = set(headers())
    for d in ("include", "src"):
        for p in glob.glob(REPO + "/" + d + "/**/*.h", recursive=True):
            if "/src/test/" not in p and "/src/demo/" not in p:
                s.add(p)
    s.add(REPO + "/include/config_h/Config.h.in")
    return sorted(s)


def _config_h(dst):
    """the configuration header as the registered build configures it (shared library, defaults otherwise)"""
    txt = open(REPO + "/include/config_h/Config.h.in").read()
    sub = {"USE_BOOST_INTEGER": "undef", "LPP_SHARED_DLL": "define", "USE_CYCLIC_CHECK": "undef"}
    txt = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), "undef"), txt)
    os.makedirs(dst, exist_ok=True)
    p = dst + "/Config.h"
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f:
            f.write(txt)


NOT_IN_ALL = ()   # headers that cannot be included stand-alone


def _flags(cfg):
    return ["-I" + cfg, "-I" + REPO + "/include/lucene++", "-I" + REPO + "/src/core/include",
            "-I" + REPO + "/src/contrib/include", "-I" + REPO + "/src/contrib/snowball/libstemmer_c/include",
            "-I" + REPO + "/src/core/util", "-DNDEBUG", "-std=gnu++17", "-fPIC", "-DLPP_BUILDING_LIB", "-w",
            "-ferror-limit=0"]


def extract(verbose=False):
    """returns (facts, meta): facts is a list of per-unit dicts"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _extract(verbose)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _extract(verbose):
    exe, toolkey = build_tool()
    srcs = sources()
    if len(srcs) < 300:
        raise AnalysisError("only %d translation units found under %s/src: analysis would be vacuous" % (len(srcs), REPO))
    hk = _sha(toolkey, REPO, *[x for h in all_headers_for_hash() for x in (h, _read(h))])
    cache = os.path.join(BUILD, "facts")
    os.makedirs(cache, exist_ok=True)
    want = {}
    for s in srcs:
        want[s] = os.path.join(cache, _sha(hk, s, _read(s)) + ".m")
    hdrout = os.path.join(cache, "hdr-" + hk + ".m")
    todo = [s for s in srcs if not os.path.exists(want[s])]
    need_hdr = not os.path.exists(hdrout)
    combined = os.path.join(cache, "all-" + _sha(hk, *[os.path.basename(want[s]) for s in srcs]) + ".m")
    meta = {"units": len(srcs), "reparsed": len(todo), "headers": len(headers())}
    if not todo and not need_hdr and os.path.exists(combined):
        with open(combined, "rb") as f:
            return marshal.load(f), meta
    if todo or need_hdr:
        work = tempfile.mkdtemp(prefix="lpp", dir=BUILD)
        try:
            cfg = os.path.join(BUILD, "cfg-" + hk[:12])
            _config_h(cfg)
            flags = _flags(cfg)
            allh = cfg + "/lpp_all.h"
            txt = "#include \"Config.h\"\n#include \"LuceneInc.h\"\n" + "".join("#include \"%s\"\n" % h for h in headers())
            if not os.path.exists(allh) or open(allh).read() != txt:
                with open(allh, "w") as f:
                    f.write(txt)
            pch = cfg + "/lpp_all2.pch"
            if not os.path.exists(pch) and len(todo) > 6:
                r = subprocess.run(["clang++-18", "-x", "c++-header", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp"] + flags + [allh, "-o", pch + ".tmp"],
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisError("headers do not parse: " + r.stderr[-3000:])
                os.rename(pch + ".tmp", pch)
            procs = []
            res = ["-resource-dir", LLVM + "/lib/clang/18"]

            def launch(name, items, extra, allmode=False):
                lst = work + "/" + name
                with open(lst, "w") as f:
                    for s, o in items:
                        f.write(s + "\t" + o + "\n")
                cmd = [exe, REPO] + (["--all"] if allmode else []) + [lst, "--"] + flags + res + extra
                return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(lst + ".err", "w")), lst

            outs = {}
            if need_hdr:
                hc = work + "/hdr.cpp"
                with open(hc, "w") as f:
                    f.write("#include \"%s\"\n" % allh)
                outs[hc] = work + "/hdr.json"
                procs.append(launch("hdr.lst", [(hc, outs[hc])], [], True))
            n = min(JOBS, max(1, len(todo)))
            big = sorted(todo, key=lambda s: -os.path.getsize(s))
            groups = [[] for _ in range(n * 3)]
            sizes = [0] * len(groups)
            for s in big:
                i = sizes.index(min(sizes))
                groups[i].append(s); sizes[i] += os.path.getsize(s) + 12000
            usepch = ["-include-pch", pch] if os.path.exists(pch) else []
            gi = 0
            def run_all(groups, extra):
                nonlocal gi
                queue = list(groups); running = list(procs); del procs[:]
                while queue or running:
                    while queue and len(running) < JOBS:
                        items = []
                        for s in queue.pop(0):
                            outs[s] = work + "/" + _sha(s) + ".json"
                            items.append((s, outs[s]))
                        running.append(launch("g%d.lst" % gi, items, extra)); gi += 1
                    done = [x for x in running if x[0].poll() is not None]
                    if not done:
                        time.sleep(0.01)
                    for x in done:
                        running.remove(x)
            run_all([g for g in groups if g], usepch)
            # a unit that crashed the parser takes its batch with it: retry one by one, then without the precompiled header
            missing = [s for s in todo if not os.path.exists(outs[s])]
            if missing:
                run_all([[s] for s in missing], usepch)
                missing = [s for s in missing if not os.path.exists(outs[s])]
            if missing:
                run_all([[s] for s in missing], [])
                missing = [s for s in missing if not os.path.exists(outs[s])]
            if missing:
                err = "".join(open(p).read() for p in glob.glob(work + "/*.err"))
                raise AnalysisError("units do not parse: %s\n%s" % (missing, err[-3000:]))
            for s in todo:
                d = json.load(open(outs[s]))
                if d["errors"]:
                    raise AnalysisError("errors in " + s)
                d["unit"] = s[len(REPO) + 1:]
                _dump(d, want[s])
            if need_hdr:
                hj = work + "/hdr.json"
                if not os.path.exists(hj):
                    raise AnalysisError("header unit does not parse: " + open(work + "/hdr.lst.err").read()[-3000:])
                d = json.load(open(hj))
                d["unit"] = "<headers>"
                _dump(d, hdrout)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    facts = [_load(hdrout)] + [_load(want[s]) for s in srcs]
    _dump(facts, combined)
    # keep the cache small: combined files other than the newest few are dropped
    alls = sorted(glob.glob(cache + "/all-*.m"), key=os.path.getmtime)
    for old in alls[:-3]:
        try:
            os.unlink(old)
        except OSError:
            pass
    return facts, meta


def _dump(o, p):
    t = p + ".%d" % os.getpid()
    with open(t, "wb") as f:
        marshal.dump(o, f)
    os.rename(t, p)


def _load(p):
    with open(p, "rb") as f:
        return marshal.load(f)


if __name__ == "__main__":
    import time
    t = time.time()
    f, m = extract(True)
    print(m, "functions", sum(len(u["functions"]) for u in f), "%.1fs" % (time.time() - t))
