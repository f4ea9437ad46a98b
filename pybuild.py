"""Builds the Python extension from the current tree, instrumented."""
import glob
import hashlib
import os
import shutil

import check as ck

PYDIR = os.path.join(ck.REPO, "python", "geoarrow-c")
VENV_PY = "/opt/vp/venv/bin/python"
ALLOC = r'''
#include <stdlib.h>
#include <string.h>
static long vf_live_n = 0;
void* vf_malloc(size_t n) { void* p = malloc(n); if (p) __atomic_add_fetch(&vf_live_n, 1, __ATOMIC_SEQ_CST); return p; }
void* vf_calloc(size_t m, size_t n) { void* p = calloc(m, n); if (p) __atomic_add_fetch(&vf_live_n, 1, __ATOMIC_SEQ_CST); return p; }
void* vf_realloc(void* p, size_t n) { void* q = realloc(p, n); if (!p && q) __atomic_add_fetch(&vf_live_n, 1, __ATOMIC_SEQ_CST); return q; }
void vf_free(void* p) { if (p) __atomic_sub_fetch(&vf_live_n, 1, __ATOMIC_SEQ_CST); free(p); }
char* vf_strdup(const char* s) { char* p = strdup(s); if (p) __atomic_add_fetch(&vf_live_n, 1, __ATOMIC_SEQ_CST); return p; }
__attribute__((visibility("default"))) long vf_live(void) { return vf_live_n; }
'''


def asan_runtime():
    rc, out = ck.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"])
    return out.strip()


def sources():
    out = glob.glob(os.path.join(PYDIR, "src", "geoarrow", "c", "*.py*"))
    out += glob.glob(os.path.join(PYDIR, "src", "geoarrow", "c", "geoarrow_python", "*"))
    out = [p for p in out if not p.endswith(("_version.py", ".pyc"))]
    return out + [os.path.join(PYDIR, "bootstrap.py")]


@ck.one_at_a_time
def build():
    """Returns the directory to put on sys.path"""
    cflags = ["-O1", "-g", "-w", "-fPIC", "-fsanitize=address", "-shared-libasan", "-fno-omit-frame-pointer",
              "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,bool,float-cast-overflow",
              "-fno-sanitize-recover=all"]
    # Cython's own code: checked for memory errors only
    xflags = ["-O1", "-g1", "-w", "-fPIC", "-fsanitize=address", "-shared-libasan"]
    key = ck.tree_hash(ck.repo_sources() + sources() + [os.path.join(ck.HAR, "vf_alloc.h")]) + repr((cflags, xflags, ALLOC, 1))
    d = ck.Dir("pyext", hashlib.sha256(key.encode()).hexdigest())
    if d.ready():
        return os.path.join(d.path, "pkg")
    tmp = d.begin()
    # The layout of the repository, for bootstrap.py
    root = os.path.join(tmp, "repo")
    shutil.copytree(os.path.join(ck.REPO, "src"), os.path.join(root, "src"),
                    ignore=shutil.ignore_patterns("*_test.cc"))
    py = os.path.join(root, "python", "geoarrow-c")
    shutil.copytree(PYDIR, py, ignore=shutil.ignore_patterns("geoarrow", "build", "*.so", "_lib.cpp", "tests", "*.egg-info",
                                                             "__pycache__"))
    c = os.path.join(py, "src", "geoarrow", "c")
    os.makedirs(c)
    for f in glob.glob(os.path.join(PYDIR, "src", "geoarrow", "c", "*.py*")):
        shutil.copy(f, c)
    shutil.copytree(os.path.join(PYDIR, "src", "geoarrow", "c", "geoarrow_python"), os.path.join(c, "geoarrow_python"))
    with open(os.path.join(c, "_version.py"), "w") as f:
        f.write("__version__ = '0'\n__version_tuple__ = (0,)\n")
    rc, out = ck.run([VENV_PY, os.path.join(py, "bootstrap.py")], cwd=py)
    if rc:
        raise ck.BuildError(out)
    rc, out = ck.run([VENV_PY, "-m", "cython", "--cplus", "-3", os.path.join(c, "_lib.pyx"), "-o", os.path.join(tmp, "_lib.cpp")])
    if rc:
        raise ck.BuildError(out)
    with open(os.path.join(tmp, "alloc.c"), "w") as f:
        f.write(ALLOC)
    rc, out = ck.run([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"])
    inc = ["-I", out.strip()] + sum([["-I", os.path.join(c, x)] for x in ("", "geoarrow", "geoarrow_python")], [])
    defs = ["-DGEOARROW_NAMESPACE=GeoArrowPythonPkg", "-DNANOARROW_NAMESPACE=GeoArrowPythonPkg"]
    v = os.path.join(c, "geoarrow")
    cs = glob.glob(os.path.join(v, "*.c")) + glob.glob(os.path.join(v, "ryu", "*.c")) + glob.glob(os.path.join(v, "nanoarrow", "*.c"))
    ccs = glob.glob(os.path.join(v, "*.cc"))
    jobs, objs = [], []
    jobs.append(["clang++", "-std=c++17"] + xflags + inc + defs + ["-c", os.path.join(tmp, "_lib.cpp"), "-o", os.path.join(tmp, "lib.o")])
    for i, s in enumerate(cs):
        o = os.path.join(tmp, "c%d.o" % i)
        objs.append(o)
        jobs.append(["clang", "-std=gnu99"] + cflags + inc + defs + ["-include", os.path.join(ck.HAR, "vf_alloc.h"), "-c", s, "-o", o])
    for i, s in enumerate(ccs):
        o = os.path.join(tmp, "cc%d.o" % i)
        objs.append(o)
        jobs.append(["clang++", "-std=c++17"] + cflags + inc + defs + ["-c", s, "-o", o])
    jobs.append(["clang", "-O1", "-fPIC", "-c", os.path.join(tmp, "alloc.c"), "-o", os.path.join(tmp, "alloc.o")])
    ck.compile_all(jobs)
    pkg = os.path.join(tmp, "pkg", "geoarrow", "c")
    os.makedirs(pkg)
    for f in ("__init__.py", "lib.py", "_version.py"):
        shutil.copy(os.path.join(c, f), pkg)
    rc, out = ck.run(["clang++", "-shared"] + xflags + ["-fsanitize=bounds"] + objs + [os.path.join(tmp, "lib.o"), os.path.join(tmp, "alloc.o"),
                     "-o", os.path.join(pkg, "_lib.so")])
    if rc:
        raise ck.BuildError(out)
    for o in objs:
        os.unlink(o)
    shutil.rmtree(root)
    d.commit()
    return os.path.join(d.path, "pkg")


if __name__ == "__main__":
    print(build())
