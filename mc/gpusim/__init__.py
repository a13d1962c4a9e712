"""A stand-in for CuPy that runs the library's real CUDA sources on the CPU, one GPU thread after another.

`install()` puts modules named cupy, cupy.cublas, cupy.cuda and cupyx into sys.modules (before thinc is imported), so
that thinc takes its GPU code paths. The stand-in keeps what matters about CuPy:

* arrays are a type of their own; nothing converts them to numpy implicitly, and mixing them with numpy arrays is a
  TypeError; they leave the device only through `.get()` / `cupy.asnumpy`;
* `cupy.empty` hands out memory with arbitrary contents (a poison pattern here);
* RawModule / RawKernel / ElementwiseKernel / ReductionKernel compile the CUDA source they are given (g++, with the
  thread-index variables and the few CUDA built-ins defined) and run it for every thread of the launch, in an order
  the checker chooses; kernels get the raw memory of their arguments, whatever the arrays' strides, and Python
  numbers as 8-byte values, like in CuPy;
* every launch runs on copies of the argument memory with guard zones around, so that a stray write is reported
  (OutOfBounds) instead of damaging the checker, and a value read from outside depends on the poison pattern.
"""
import sys


def install():
    if "cupy" in sys.modules and not hasattr(sys.modules["cupy"], "_is_standin"):
        raise RuntimeError("a real cupy is installed; the GPU checks need their stand-in")
    from . import sim

    sim.register()
