#!/usr/bin/env python3
"""Builds the simulator and the application images from /repo's current working tree.

build(variants) -> dict name -> path prefix (images are <prefix>.<rank>.so, hard copies made on demand by run.py)
Objects are cached under /verif/build/<hash of everything that goes in>.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PPK_REPO", "/repo")
BUILD = os.environ.get("PPK_BUILD", os.path.join(VERIF, "build"))
KOKKOS = ["/usr/lib/x86_64-linux-gnu/libkokkoscontainers.so", "/usr/lib/x86_64-linux-gnu/libkokkoscore.so"]
COV = bool(os.environ.get("PPK_COV"))     # tools/coverage.py
HDF5 = "/usr/lib/x86_64-linux-gnu/libhdf5_serial.so"
BASE = ["-std=c++17", "-fopenmp", "-fPIC", "-fno-gnu-unique", "-w", "-g1", "-DKOKKOS_DEPENDENCE", "-DUSE_DOUBLE", "-DUSE_HDF5"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(root, skip=("test", "mood", "p4est", "CMakeFiles")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".in", ".inc", ".cxx", ".hxx", ".ipp", ".tpp")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def sources(mpi, sdm):
    s = REPO + "/src/"
    def g(d, drop=()):
        return [p for p in sorted(glob.glob(s + d + "/*.cpp")) if os.path.basename(p) not in drop and "test" not in os.path.basename(p).lower()]
    io_drop = [] if sdm else [os.path.basename(p) for p in glob.glob(s + "utils/io/*SDM*.cpp")]
    io_drop += [os.path.basename(p) for p in glob.glob(s + "utils/io/*PNETCDF*.cpp")]
    out = [s + "main.cpp"] + g("utils/config") + g("utils/config/inih") + g("utils/io", io_drop) + g("shared") + g("muscl")
    out += g("utils/monitoring", ["PapiInfo.cpp", "CudaTimer.cpp"])
    if mpi: out += g("utils/mpiUtils")
    if sdm: out += g("sdm")
    return out

VARIANTS = {
    # name: (mpi, sdm, tsan, opt)
    "mpi": (1, 0, 0, "-O2"), "ser": (0, 0, 0, "-O2"),
    "mpi_t": (1, 0, 1, "-O1"), "ser_t": (0, 0, 1, "-O1"),
    "mpisdm": (1, 1, 0, "-O1"), "sersdm": (0, 1, 0, "-O1"), "sersdm_t": (0, 1, 1, "-O1"), "mpisdm_t": (1, 1, 1, "-O1"),
    "drv": (1, 0, 0, "-O1"), "drvs": (0, 0, 0, "-O1"),
}
SDM_ORDERS = [(2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (3, 2), (3, 3), (3, 4)]
# orders really instantiated (the others abort if asked for: not simulated)
SDM_REAL = [(2, 1), (2, 2), (2, 3), (3, 2)]

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

class BuildError(RuntimeError): pass

def _sim(jobs):
    key = sha(tree_hash(HERE, ()), "v1")
    d = os.path.join(BUILD, "sim-" + key)
    exe = d + "/ppsim"
    if os.path.exists(exe): return exe, []
    os.makedirs(d, exist_ok=True)
    objs, cmds = [], []
    for f in sorted(glob.glob(HERE + "/rt/*.cpp")):
        o = d + "/" + os.path.basename(f) + ".o"; objs.append(o)
        cmds.append(["g++", "-std=c++17", "-O2", "-g1", "-fPIC", "-DSIM_RT", "-w", "-I" + HERE + "/include", "-I/usr/include/hdf5/serial", "-I" + HERE + "/rt", "-c", f, "-o", o])
    link = ["g++", "-rdynamic", "-o", exe + ".tmp"] + objs + KOKKOS + [HDF5, "-ldl", "-lpthread"]
    return exe, [("sim", cmds, link, exe)]

def _variant(name):
    mpi, sdm, tsan, opt = VARIANTS[name]
    key = sha(tree_hash(REPO + "/src"), tree_hash(HERE + "/include", ()), tree_hash(HERE + "/app", ()), name, repr(VARIANTS[name]), repr(BASE), repr(SDM_REAL), repr(COV), open(__file__).read())
    d = os.path.join(BUILD, name + "-" + key)
    so = d + "/app.so"
    if os.path.exists(so): return so, []
    os.makedirs(d + "/gen", exist_ok=True)
    t = open(REPO + "/src/ppkMHD_version.h.in").read()
    import re
    t = re.sub(r"@\w+@", "sim", t)
    open(d + "/gen/ppkMHD_version.h", "w").write(t)
    fl = list(BASE) + [opt]
    if mpi: fl += ["-DUSE_MPI", "-DUSE_HDF5_PARALLEL"]
    if sdm: fl += ["-DUSE_SDM"]
    if tsan: fl += ["-fsanitize=thread"]
    if COV: fl += ["-fsanitize-coverage=trace-pc", "-g"]
    inc = ["-I" + HERE + "/include"] if mpi else ["-I/usr/include/hdf5/serial"]
    inc += ["-I" + d + "/gen", "-I" + REPO + "/src", "-I/usr/include/hdf5/serial", "-I" + REPO + "/src/utils", "-I" + REPO + "/src/utils/config/inih"]
    if mpi: inc += ["-I" + REPO + "/src/utils/mpiUtils"]
    cmds, objs = [], []
    def tu(src, obj, extra=()):
        o = d + "/" + obj + ".o"; objs.append(o)
        cmds.append(["g++"] + fl + inc + list(extra) + ["-c", src, "-o", o])
    srcs = sources(mpi, sdm)
    if name in ("drv", "drvs"):
        srcs = [s for s in srcs if "/mpiUtils/" in s or "/utils/config/" in s]
        tu(HERE + "/app/driver.cpp", "driver")
    if sdm:
        gen = d + "/gen/sdm_extern.h"
        # instantiate every order in its own translation unit so that they compile in parallel
        open(gen, "w").write('#include "shared/SolverBase.h"\n#include "sdm/SolverHydroSDM.h"\nnamespace ppkMHD { namespace sdm {\n' + "".join("extern template class SolverHydroSDM<%d,%d>;\n" % o for o in SDM_ORDERS) + "}}\n")
        for o in SDM_ORDERS:
            f = d + "/gen/sdm_%d_%d.cpp" % o
            if o in SDM_REAL:
                open(f, "w").write('#include "shared/SolverBase.h"\n#include "sdm/SolverHydroSDM.h"\nnamespace ppkMHD { namespace sdm {\ntemplate class SolverHydroSDM<%d,%d>;\n}}\n' % o)
            else:
                open(f, "w").write('#include "shared/SolverBase.h"\n#include "sdm/SolverHydroSDM.h"\n#include <cstdlib>\nnamespace ppkMHD { namespace sdm {\ntemplate<> SolverBase* SolverHydroSDM<%d,%d>::create(HydroParams&, ConfigMap&) { abort(); }\n}}\n' % o)
            tu(f, "sdm_%d_%d" % o)
    for s in srcs:
        ob = os.path.relpath(s, REPO + "/src").replace("/", "_")
        ex = []
        if s.endswith("src/main.cpp"): ex = ["-include", HERE + "/app/entry.h"]
        if sdm and s.endswith("SolverFactory.cpp"): ex = ["-include", d + "/gen/sdm_extern.h"]
        tu(s, ob, ex)
    link = ["g++", "-shared", "-o", so + ".tmp"] + objs
    return so, [(name, cmds, link, so)]

def build(variants, verbose=False):
    """returns (ppsim path, {variant: so path})"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = []
        exe, t = _sim(8); todo += t
        out = {}
        for v in variants:
            so, t = _variant(v); out[v] = so; todo += t
        t0 = time.time()
        if todo:
            with cf.ThreadPoolExecutor(int(os.environ.get("PPK_JOBS", "8"))) as ex:
                allc = [c for t in todo for c in t[1]]
                # heavy units first
                heavy = ("sdm_", "IO_VTK_SDM", "SolverMHD", "SolverHydro", "SolverFactory", "SolverBase")
                allc.sort(key=lambda c: min([i for i, h in enumerate(heavy) if h in c[-1]] + [99]))
                fs = [ex.submit(run, c) for c in allc]
                for f in fs: f.result()
            for name, cmds, link, target in todo:
                run(link)
                os.rename(target + ".tmp", target)
                for c in cmds:
                    try: os.unlink(c[-1])
                    except OSError: pass
        if verbose: print("# built %d unit(s) in %.1fs" % (sum(len(t[1]) for t in todo), time.time() - t0), file=sys.stderr)
        # drop stale images (keep the newest few)
        keep = set(os.path.dirname(p) for p in list(out.values()) + [exe])
        ds = sorted((p for p in glob.glob(BUILD + "/*-*") if os.path.isdir(p) and p not in keep), key=os.path.getmtime)
        for p in ds[:-24]: shutil.rmtree(p, ignore_errors=True)
        return exe, out

if __name__ == "__main__":
    print(build(sys.argv[1:] or ["mpi"], True))
