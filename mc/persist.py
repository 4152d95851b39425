"""Moves a saved device state between processes (what a power cycle does), and runs things in fresh forks."""
import ctypes
import io
import os
import pickle
import struct


def _arr(elem, n, data):
    return (getattr(ctypes, elem) * n).from_buffer_copy(data)


def _struct(mod, name, data):
    import importlib
    return getattr(importlib.import_module(mod), name).from_buffer_copy(data)


class _P(pickle.Pickler):
    def reducer_override(self, o):
        if isinstance(o, ctypes.Array):
            return _arr, (o._type_.__name__, len(o), bytes(o))
        if isinstance(o, ctypes.Structure):
            return _struct, (type(o).__module__, type(o).__name__, bytes(o))
        if type(o).__name__ == "memoryview":
            return bytes, (bytes(o),)
        return NotImplemented


def dumps(o):
    b = io.BytesIO()
    _P(b, protocol=4).dump(o)
    return b.getvalue()


def fork_call(fn, *a):
    """Run fn(*a) in a forked child; returns its (pickled) result or raises."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = (True, fn(*a))
                data = dumps(res)
            except BaseException as e:
                import traceback
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError("child failed: " + res[-1500:])
    return res
