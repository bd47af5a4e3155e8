"""Fact base: the resolved, type-checked program of /repo, re-extracted from the
current sources on every run (cached only by a content hash of all inputs)."""
import glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LLVM18 = "/usr/lib/llvm-18"
LLVM20 = "/usr/lib/llvm-20"


class AnalysisError(Exception):
    """The checker cannot do its job (vanished anchor, extractor failure)."""


def _cache_dir():
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, ".w"), "w"):
            pass
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def _sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_tool():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    cache = _cache_dir()
    out = os.path.join(cache, "extract-" + _sha([src]))
    if os.path.exists(out):
        return out
    # prebuilt from exactly this source (keyed by its hash; tools/prebuild.sh); otherwise build it here
    pre = os.path.join(VERIF, "extractor", "bin", os.path.basename(out))
    if os.path.exists(pre):
        r = subprocess.run([pre], capture_output=True)
        if r.returncode == 2:
            return pre
    tmp = out + ".tmp%d" % os.getpid()
    cppflags = ["-I" + LLVM18 + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti"] + cppflags + [src, "-o", tmp,
           LLVM18 + "/lib/libclang-cpp.so.18.1", LLVM18 + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def _repo_sources():
    pats = ["include/**/*.hpp", "include/**/*.h", "src/**/*.cpp", "src/**/*.hpp", "src/**/*.h",
            "mlir/include/**/*", "mlir/lib/**/*.cpp", "mlir/lib/**/*.h"]
    fs = set()
    for p in pats:
        for f in glob.glob(os.path.join(REPO, p), recursive=True):
            if os.path.isfile(f):
                fs.add(f)
    return sorted(fs)


def _stubs(work):
    """Build-generated export headers: the macros only carry symbol visibility."""
    d = os.path.join(work, "stub")
    os.makedirs(d, exist_ok=True)
    names = {}
    for f in _repo_sources():
        if not f.endswith((".hpp", ".h", ".cpp")):
            continue
        with open(f, encoding="utf8", errors="replace") as fh:
            for m in re.finditer(r'#include\s+["<]([\w/]+_export\.h)[">]', fh.read()):
                names[m.group(1)] = 1
    for n in names:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        base = os.path.basename(n)[:-2].upper()
        with open(p, "w") as fh:
            fh.write("#pragma once\n#define %s\n#define %s\n" % (base, base.replace("_EXPORT", "_NO_EXPORT")))
    return d


GROUPS = {
    "ir": ["src/ir/**/*.cpp"],
    "qasm3": ["src/qasm3/**/*.cpp"],
    "dd": ["src/dd/**/*.cpp"],
    "zx": ["src/zx/**/*.cpp"],
    "na": ["src/na/**/*.cpp"],
    "co": ["src/circuit_optimizer/**/*.cpp"],
    "ds": ["src/datastructures/**/*.cpp"],
    "algo": ["src/algorithms/**/*.cpp"],
    "py": ["src/python/**/*.cpp"],
    "mlir": ["mlir/lib/**/*.cpp"],
}
AUX = {"ir": ["ir.cpp"], "dd": ["dd.cpp"], "zx": ["zx.cpp"], "ds": ["ds.cpp"], "na": ["na.cpp"], "qasm3": ["qasm3.cpp"]}
ALLCPP = ["ir", "qasm3", "dd", "zx", "na", "co", "ds", "algo"]


def _mlir_gen(work):
    """TableGen the dialect's .inc headers from the repository's .td files."""
    td = os.path.join(REPO, "mlir/include/mlir/Dialect/MQTOpt")
    out = os.path.join(work, "gen", "mlir", "Dialect", "MQTOpt")
    os.makedirs(os.path.join(out, "IR"), exist_ok=True)
    os.makedirs(os.path.join(out, "Transforms"), exist_ok=True)
    tg = shutil.which("mlir-tblgen-20") or "/usr/bin/mlir-tblgen-20"
    inc = ["-I", LLVM20 + "/include", "-I", REPO + "/mlir/include", "-I", td + "/IR"]
    jobs = []
    I = td + "/IR/MQTOptInterfaces.td"
    O = td + "/IR/MQTOptOps.td"
    P = td + "/Transforms/Passes.td"
    jobs += [(["-gen-op-interface-decls", I], "IR/MQTOptInterfaces.h.inc"),
             (["-gen-op-interface-defs", I], "IR/MQTOptInterfaces.cpp.inc"),
             (["-gen-op-decls", O], "IR/MQTOptOps.h.inc"),
             (["-gen-op-defs", O], "IR/MQTOptOps.cpp.inc"),
             (["-gen-typedef-decls", "-typedefs-dialect=mqtopt", O], "IR/MQTOptOpsTypes.h.inc"),
             (["-gen-typedef-defs", "-typedefs-dialect=mqtopt", O], "IR/MQTOptOpsTypes.cpp.inc"),
             (["-gen-dialect-decls", "-dialect=mqtopt", O], "IR/MQTOptOpsDialect.h.inc"),
             (["-gen-dialect-defs", "-dialect=mqtopt", O], "IR/MQTOptOpsDialect.cpp.inc"),
             (["-gen-pass-decls", "-name=MQTOpt", P], "Transforms/Passes.h.inc")]
    for a, o in jobs:
        r = subprocess.run([tg] + a + inc + ["-o", os.path.join(out, o)], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("mlir-tblgen failed for %s: %s" % (o, r.stderr[-800:]))
    return os.path.join(work, "gen")


def _conv(n, types):
    """types are interned indices in the dump: expand to strings in place."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k in ("t", "rt", "tt", "at"):
                v = x.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    x[k] = types[v]
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def _flags(group, stub, gen):
    fl = ["-resource-dir=" + LLVM18 + "/lib/clang/18", "-w", "-DNDEBUG", "-ferror-limit=3",
          "-DMQT_CORE_VERSION_INFO=\"0\"", "-fno-caret-diagnostics"]
    std = "-std=c++17"
    inc = ["-I" + stub, "-I" + REPO + "/include/mqt-core"]
    if group == "py":
        pb = sorted(glob.glob("/opt/vp/venv/lib/python3*/site-packages/pybind11/include"))
        if not pb:
            raise AnalysisError("pybind11 headers not found")
        inc += ["-isystem" + pb[0], "-isystem/usr/include/python3.12"]
        fl += ["-DMQT_CORE_MODULE_NAME=x"]
    if group == "mlir":
        inc += ["-I" + REPO + "/mlir/include", "-I" + gen, "-isystem" + LLVM20 + "/include"]
    return [std] + inc + fl


def _extract_one(tool, src, group, stub, gen, outdir):
    out = os.path.join(outdir, hashlib.sha1(src.encode()).hexdigest()[:16] + ".json")
    r = subprocess.run([tool, out, REPO, src, "--"] + _flags(group, stub, gen), capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError("extraction of %s failed:\n%s" % (src, (r.stderr or r.stdout)[-1500:]))
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    for part in ("functions", "classes", "enums", "globals"):
        _conv(d[part], d["types"])
    return d


class Facts:
    def __init__(self):
        self.functions = {}   # usr -> fn
        self.by_name = {}     # qualified name -> [fn]
        self.classes = {}     # qn -> class
        self.enums = {}
        self.globals = {}     # usr -> var
        self.files = []
        self.tus = []

    def add(self, d):
        for f in d["functions"]:
            u = f["u"] or (f["n"] + f["file"] + str(f["l"]))
            old = self.functions.get(u)
            if old is None or ("body" in f and "body" not in old):
                self.functions[u] = f
        for c in d["classes"]:
            self.classes.setdefault(c["u"], c)
        for e in d["enums"]:
            self.enums.setdefault(e["n"], e)
        for g in d["globals"]:
            o = self.globals.get(g["u"])
            if o is None or ("init" in g and "init" not in o):
                self.globals[g["u"]] = g

    def finish(self):
        self.by_name = {}
        for f in self.functions.values():
            self.by_name.setdefault(f["n"], []).append(f)
        self.cls_by_name = {}
        for c in self.classes.values():
            self.cls_by_name.setdefault(c["n"], []).append(c)
        self.overriders = {}
        for f in self.functions.values():
            for b in f.get("ov", []):
                self.overriders.setdefault(b, []).append(f["u"])
        return self

    # --- lookups -----------------------------------------------------------
    def fns(self, name, inst=None):
        r = self.by_name.get(name, [])
        if inst is not None:
            r = [f for f in r if bool(f.get("tmpl")) != inst]
        return r

    def fn(self, name, nparams=None, pred=None):
        r = [f for f in self.by_name.get(name, []) if not f.get("tmpl")]
        if not r:
            r = self.by_name.get(name, [])
        if nparams is not None:
            r = [f for f in r if len(f["ps"]) == nparams]
        if pred:
            r = [f for f in r if pred(f)]
        if not r:
            raise AnalysisError("anchor vanished: function %s" % name)
        return r[0]

    def cls(self, name):
        r = [c for c in self.cls_by_name.get(name, [])]
        if not r:
            raise AnalysisError("anchor vanished: class %s" % name)
        return r[0]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisError("anchor vanished: enum %s" % name)
        return self.enums[name]


def load(groups):
    groups = sorted(set(groups))
    tool = build_tool()
    cache = _cache_dir()
    srcs = _repo_sources()
    aux = []
    for g in groups:
        for a in AUX.get(g, []):
            p = os.path.join(VERIF, "extractor", "aux", a)
            if os.path.exists(p):
                aux.append((g, p))
    key = _sha(srcs + [os.path.join(VERIF, "extractor", "extract.cpp"), os.path.abspath(__file__)]
               + [p for _, p in aux])
    facts = Facts()
    work = None
    try:
        todo = []
        for g in groups:
            pk = os.path.join(cache, "facts-%s-%s.pkl" % (g, key))
            if os.path.exists(pk):
                with open(pk, "rb") as f:
                    try:
                        ds = pickle.load(f)
                    except Exception:
                        ds = None
                if ds is not None:
                    for src, d in ds:
                        facts.tus.append(src)
                        facts.add(d)
                    continue
            todo.append((g, pk))
        if todo:
            for old in glob.glob(os.path.join(cache, "facts-*.pkl")):
                if key not in old:
                    try:
                        os.unlink(old)
                    except OSError:
                        pass
            work = tempfile.mkdtemp(prefix="vx", dir=cache)
            stub = _stubs(work)
            gen = _mlir_gen(work) if any(g == "mlir" for g, _ in todo) else None
            jobs = []
            for g, pk in todo:
                files = []
                for p in GROUPS[g]:
                    files += [f for f in glob.glob(os.path.join(REPO, p), recursive=True)]
                files = sorted(set(files))
                if not files:
                    raise AnalysisError("no sources for group " + g)
                files += [p for gg, p in aux if gg == g]
                for f in files:
                    jobs.append((g, f))
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda j: (j, _extract_one(tool, j[1], j[0], stub, gen, work)), jobs))
            for g, pk in todo:
                ds = [(j[1], d) for j, d in res if j[0] == g]
                with open(pk + ".tmp%d" % os.getpid(), "wb") as f:
                    pickle.dump(ds, f, protocol=4)
                os.replace(pk + ".tmp%d" % os.getpid(), pk)
                for src, d in ds:
                    facts.tus.append(src)
                    facts.add(d)
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
    return facts.finish()


if __name__ == "__main__":
    import time
    t = time.time()
    F = load(sys.argv[1:] or ALLCPP)
    print(len(F.functions), "functions", len(F.classes), "classes", len(F.enums), "enums", len(F.tus), "TUs", time.time() - t)
