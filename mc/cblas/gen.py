"""Writes the Cython harness that calls thinc's C BLAS table from C, and compiles it against the current tree."""
import atexit
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from pathlib import Path

AXPY = """
cdef void own_{s}axpy_{k}(int N, {t} alpha, const {t}* X, int incX, {t}* Y, int incY) noexcept nogil:
    calls[{i}] += 1
    if incX < 1 or incY < 1: bad[0] += 1
    cdef int j
    for j in range(N):
        Y[j * incY] = Y[j * incY] + alpha * X[j * incX]
"""
SCAL = """
cdef void own_{s}scal_{k}(int N, {t} alpha, {t}* X, int incX) noexcept nogil:
    calls[{i}] += 1
    if incX < 1: bad[0] += 1
    cdef int j
    for j in range(N):
        X[j * incX] = alpha * X[j * incX]
"""
GEMM = """
cdef void own_{s}gemm_{k}(bint tA, bint tB, int M, int N, int K, {t} alpha, const {t}* A, int lda, const {t}* B, int ldb, {t} beta, {t}* C, int ldc) noexcept nogil:
    calls[{i}] += 1
    cdef int i, j, k
    cdef {t} acc
    if M > 0 and N > 0 and K > 0 and (lda < (M if tA else K) or ldb < (K if tB else N) or ldc < N): bad[0] += 1
    for i in range(M):
        for j in range(N):
            acc = 0
            for k in range(K):
                acc = acc + (A[k * lda + i] if tA else A[i * lda + k]) * (B[j * ldb + k] if tB else B[k * ldb + j])
            if beta == 0:
                C[i * ldc + j] = alpha * acc
            else:
                C[i * ldc + j] = beta * C[i * ldc + j] + alpha * acc
"""
NAMES = [s + r for r in ("axpy", "scal", "gemm") for s in "sd"]
KINDS = 2  # stand-ins per routine


def source():
    out = ["# cython: language_level=3", "cimport thinc.backends.cblas as cb", "from thinc.backends.cblas cimport CBlas",
           f"cdef int calls[{len(NAMES) * KINDS}]", "cdef int bad[1]"]
    sigs = {"axpy": AXPY, "scal": SCAL, "gemm": GEMM}
    i = 0
    for n in NAMES:
        for k in range(KINDS):
            out.append(sigs[n[1:]].format(s=n[0], t={"s": "float", "d": "double"}[n[0]], k=k, i=i).replace("noexcept ", ""))
            i += 1
    out.append(f"""
def reset():
    for i in range({len(NAMES) * KINDS}): calls[i] = 0
    bad[0] = 0

def counts():
    return [calls[i] for i in range({len(NAMES) * KINDS})], bad[0]
""")
    out.append("def put(CBlas c, str name, int k):")
    for n in NAMES:
        for k in range(KINDS):
            out.append(f"    if name == '{n}' and k == {k}: cb.set_{n}(c, own_{n}_{k}); return")
    out.append("    raise KeyError(name)")
    out.append("def move(CBlas to, CBlas c, str name):\n    'the routine of one table set in another'")
    for n in NAMES:
        out.append(f"    if name == '{n}': cb.set_{n}(to, cb.{n}(c)); return")
    out.append("    raise KeyError(name)")
    for s, t in (("s", "float"), ("d", "double")):
        out.append(f"""
def run_{s}axpy(CBlas c, int N, {t} alpha, {t}[::1] X, int ox, int incX, {t}[::1] Y, int oy, int incY):
    with nogil:
        cb.{s}axpy(c)(N, alpha, &X[0] + ox, incX, &Y[0] + oy, incY)

def run_{s}scal(CBlas c, int N, {t} alpha, {t}[::1] X, int ox, int incX):
    with nogil:
        cb.{s}scal(c)(N, alpha, &X[0] + ox, incX)

def run_{s}gemm(CBlas c, bint tA, bint tB, int M, int N, int K, {t} alpha, {t}[::1] A, int lda, {t}[::1] B, int ldb, {t} beta, {t}[::1] C, int oc, int ldc):
    with nogil:
        cb.{s}gemm(c)(tA, tB, M, N, K, alpha, &A[0], lda, &B[0], ldb, beta, &C[0] + oc, ldc)
""")
    return "\n".join(out) + "\n"


def build(repo):
    root = Path(tempfile.mkdtemp(prefix="verif-cblas-"))
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
    (root / "mc_cblas_harness.pyx").write_text(source())
    import numpy

    so = root / ("mc_cblas_harness" + sysconfig.get_config_var("EXT_SUFFIX"))
    for cmd in ([sys.executable, "-m", "cython", "--cplus", "-I", str(repo), "-o", str(root / "h.cpp"), str(root / "mc_cblas_harness.pyx")],
                ["g++", "-O1", "-w", "-shared", "-fPIC", "-std=c++11", "-I", sysconfig.get_path("include"), "-I", numpy.get_include(), "-I", str(Path(repo) / "thinc" / "backends"),
                 str(root / "h.cpp"), "-o", str(so)]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=root)
        if r.returncode:
            raise RuntimeError("building the C BLAS harness failed:\n" + r.stdout[-3000:])
    spec = importlib.util.spec_from_file_location("mc_cblas_harness", str(so))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
