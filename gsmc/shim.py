"""Control of the preloaded fault injector (shim.c)."""
import contextlib
import ctypes
import os
import subprocess

LIB = "shim.so"


def make(top):
    """Compile the injector; returns the path to preload."""
    out = os.path.join(top, LIB)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", "-o", out, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c"), "-ldl"], check=True)
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["GSMC_SHIM"])
        _lib.gsmc_set.argtypes = [ctypes.c_char_p] + [ctypes.c_long] * 8
        _lib.gsmc_refused.restype = _lib.gsmc_calls.restype = ctypes.c_long
    return _lib


class Count:
    refused = calls = 0


@contextlib.contextmanager
def storage(d, free=-1, wchunk=0, once=0, weintr=0, close=0, bad=-1, rchunk=0, reintr=0):
    """Files below folder d behave as described within this block."""
    b = lib()
    c = Count()
    b.gsmc_set(os.path.realpath(d).encode(), free, wchunk, once, weintr, close, bad, rchunk, reintr)
    try:
        yield c
    finally:
        b.gsmc_off()
        c.refused, c.calls = b.gsmc_refused(), b.gsmc_calls()
