"""Builds the simulator and the harnesses from /repo's current working tree.

Objects are cached under /verif/build by content: an object is reused only if its command line, its source
and every /repo or /verif file it includes are byte for byte the same.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

PACKAGES = ["sm_common", "sm_random", "sm_boost", "sm_eigen", "sm_kinematics", "sm_logging", "sm_matrix_archive",
            "sm_property_tree", "sm_timing", "sm_value_store"]
# harness -> packages whose library sources are linked
MODULES = {
    "jobqueue": ["sm_boost"],
    "logging": ["sm_logging"],
    "console": ["sm_logging"],
    "pylog": ["sm_logging"],
    "matlab": [],
    "images": ["sm_boost"],
    "timing": ["sm_timing", "sm_logging"],
    "corrector": ["sm_timing"],
    "ids": ["sm_common", "sm_random", "sm_eigen"],
    "archive": ["sm_matrix_archive"],
    "ptree": ["sm_property_tree"],
    "values": ["sm_value_store", "sm_property_tree"],
    "shared": ["sm_matrix_archive", "sm_property_tree", "sm_value_store", "sm_kinematics", "sm_eigen", "sm_common", "sm_random", "sm_boost", "sm_timing", "sm_logging"],
    "poses": ["sm_value_store", "sm_property_tree", "sm_kinematics", "sm_eigen", "sm_common", "sm_random", "sm_boost"],
    "serial": ["sm_kinematics", "sm_boost", "sm_eigen", "sm_common", "sm_property_tree", "sm_random"],
}
# what only one harness needs: (compiler flags, libraries)
PY = sorted(glob.glob("/usr/include/python3.*/Python.h"))[-1:] or ["/usr/include/python3.12/Python.h"]
PYV = PY[0].split("/")[3]
EXTRA = {"images": (["-I", f"{VERIF}/harness/stub", "-I", f"{REPO}/sm_opencv/include"], []), "matlab": (["-I", f"{VERIF}/harness/stub", "-I", f"{REPO}/sm_matlab/include"], []), "pylog": (["-I", f"{VERIF}/harness/stub", "-isystem", os.path.dirname(PY[0])], [f"-lboost_{PYV.replace('.', '')}", f"-l{PYV}"])}
LIBS = ["-lboost_system", "-lboost_thread", "-lboost_filesystem", "-lboost_regex", "-lboost_serialization", "-lpthread", "-ldl"]

SUT_FLAGS = ["-std=c++14", "-O1", "-g", "-w", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
             "-D_GLIBCXX_ASSERTIONS", "-fno-pie"]
SIM_SOURCES = ["sim", "disk", "driver"]
if os.environ.get("VERIF_COV"):      # tools/coverage.py only
    SUT_FLAGS.append("-fsanitize-coverage=trace-pc")
    SIM_SOURCES.append("cov")
SIM_FLAGS = ["-std=c++17", "-O2", "-g", "-Wall", "-Wno-unused", "-Wno-unused-result", "-fno-builtin", "-fno-threadsafe-statics",
             "-fno-tree-loop-distribute-patterns", "-fno-pie"]


class BuildError(Exception):
    pass


def includes():
    r = []
    for p in PACKAGES + ["sm_deprecation"]:
        r += ["-I", f"{REPO}/{p}/include"]
    return r + ["-isystem", "/usr/include/eigen3"]


def lib_sources(pkg):
    """The library's sources, from the package's own CMakeLists.txt."""
    d = f"{REPO}/{pkg}"
    text = re.sub(r"#[^\n]*", "", open(f"{d}/CMakeLists.txt").read())
    m = re.search(r"cs_add_library\(\s*\$\{PROJECT_NAME\}([^)]*)\)", text)
    if not m:
        raise BuildError(f"no library in {d}/CMakeLists.txt")
    return [f"{d}/{s}" for s in m.group(1).split() if s.endswith((".cpp", ".cc", ".cxx", ".c"))]


def pkg_flags(pkg):
    text = re.sub(r"#[^\n]*", "", open(f"{REPO}/{pkg}/CMakeLists.txt").read())
    defs = []
    for c in re.findall(r"add_definitions\([^)]*\)", text):
        defs += re.findall(r"-D[A-Za-z0-9_=]+", c)
    if pkg == "sm_property_tree":
        defs += ["-include", "boost/bind.hpp", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
    return defs


def sha(path, memo={}):
    if path not in memo:
        try:
            memo[path] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        except OSError:
            memo[path] = "missing"
    return memo[path]


def compile_one(job):
    src, flags = job
    cmd = ["g++"] + flags + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    obj, dep = f"{BUILD}/{key}.o", f"{BUILD}/{key}.json"
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(sha(p) == h for p, h in d.items()):
                return obj, None
        except ValueError:
            pass
    tmp = f"{BUILD}/{key}.{os.getpid()}"
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", tmp + ".d"], capture_output=True, text=True)
    if r.returncode:
        return None, f"cannot compile {src}:\n{r.stderr[-6000:]}"
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [os.path.normpath(p) for p in deps if not p.startswith("/usr/")]
    json.dump({p: sha(p) for p in deps}, open(tmp + ".json", "w"))
    os.unlink(tmp + ".d")
    os.replace(tmp + ".o", obj)
    os.replace(tmp + ".json", dep)
    return obj, None


def build(module, jobs=None):
    os.makedirs(BUILD, exist_ok=True)
    todo = []
    for p in MODULES[module]:
        for s in lib_sources(p):
            todo.append((s, SUT_FLAGS + pkg_flags(p) + includes()))
    nsut = len(todo)
    todo.append((f"{VERIF}/harness/{module}.cpp", SUT_FLAGS + ["-I", f"{VERIF}/sim", "-I", f"{VERIF}/harness"] + includes() + ["-DBOOST_BIND_GLOBAL_PLACEHOLDERS"] + EXTRA.get(module, ([], []))[0]))
    extra = f"{VERIF}/harness/{module}2.cpp"
    if os.path.exists(extra):
        todo.append((extra, todo[-1][1]))
    for s in SIM_SOURCES:
        todo.append((f"{VERIF}/sim/{s}.cpp", SIM_FLAGS))
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, todo))
    errs = [e for _, e in res if e]
    if errs:
        raise BuildError("\n".join(errs))
    objs = [o for o, _ in res]
    key = hashlib.sha256("\0".join(o + sha_fresh(o) for o in objs).encode()).hexdigest()[:16]
    exe = f"{BUILD}/{module}-{key}"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}"
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs + LIBS + EXTRA.get(module, ([], []))[1], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"cannot link {module}:\n{r.stderr[-6000:]}")
        os.replace(tmp, exe)
        for f in os.listdir(BUILD):      # drop older executables of this module
            if f.startswith(module + "-") and f"{BUILD}/{f}" != exe:
                try:
                    os.unlink(f"{BUILD}/{f}")
                except OSError:
                    pass
    return exe


def sha_fresh(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


if __name__ == "__main__":
    for m in sys.argv[1:] or MODULES:
        print(build(m))
