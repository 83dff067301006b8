"""Runs a function in a forked child whose numpy arrays end at inaccessible
pages; reports faults, ignored exceptions and BLAS/LAPACK complaints."""
import ctypes
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import traceback

_lib = None


def lib():
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp()
        so = os.path.join(d, "guard.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "guard.c")], check=True)
        _lib = ctypes.CDLL(so)
        os.unlink(so)
        os.rmdir(d)
    return _lib


def install():
    import numpy as np

    try:
        cap = np._core._multiarray_umath._ARRAY_API
    except AttributeError:
        cap = np.core._multiarray_umath._ARRAY_API
    get = ctypes.pythonapi.PyCapsule_GetPointer
    get.restype, get.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    tab = get(cap, None)
    fn = ctypes.cast(tab + 304 * ctypes.sizeof(ctypes.c_void_p), ctypes.POINTER(ctypes.c_void_p))[0]
    new = ctypes.pythonapi.PyCapsule_New
    new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    h = new(ctypes.addressof(ctypes.c_char.in_dll(lib(), "g_handler")), b"mem_handler", None)
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(fn)
    set_handler(h)


def run(fn):
    """(kind, result): value, error, or fault."""
    lib()
    r, w = os.pipe()
    with tempfile.TemporaryFile() as out:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.dup2(out.fileno(), 1)
                os.dup2(out.fileno(), 2)
                signal.alarm(50)
                bad = []
                sys.unraisablehook = lambda a: bad.append("%s: %s" % (a.exc_type.__name__, a.exc_value))
                install()
                try:
                    res = ("value", fn())
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    res = ("fault" if isinstance(e, IndexError) and tb.filename.endswith(".pyx") else "error", "%s: %s" % (type(e).__name__, e))
                if bad:
                    res = ("fault", bad[0])
                data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        out.seek(0)
        text = out.read().decode("latin1")
    if os.WIFSIGNALED(st):
        return "fault", "killed by signal %d" % os.WTERMSIG(st)
    if "On entry to" in text or "illegal value" in text:
        return "fault", text[:200]
    if not data:
        return "error", "no result (%d) %s" % (st, text[-200:])
    return pickle.loads(data)
