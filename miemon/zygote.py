"""Evaluate a function in a pristine process: a fork of a process that never ran the code under test."""
import os
import pickle
import signal
import struct
import traceback

_Z = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    h = b""
    while len(h) < 8:
        q = os.read(fd, 8 - len(h))
        if not q:
            raise EOFError
        h += q
    n, = struct.unpack("<Q", h)
    out = bytearray()
    while len(out) < n:
        q = os.read(fd, min(1 << 20, n - len(out)))
        if not q:
            raise EOFError
        out += q
    return pickle.loads(bytes(out))


def start():
    """Fork the zygote; call it before the code under test has run in this process."""
    global _Z
    if _Z is not None and _Z[3] == os.getpid():
        return
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if pid:
        os.close(a), os.close(d)
        _Z = (pid, b, c, os.getpid())
        return
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(0)
    os.close(b), os.close(c)
    while True:
        try:
            fn, args = _recv(a)
        except (EOFError, OSError):
            os._exit(0)
        kid = os.fork()
        if not kid:
            try:
                r = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001
                r = ("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-600:])
            _send(d, r)
            os._exit(0)
        os.waitpid(kid, 0)


def call(fn, *args):
    """fn must be importable by name; returns ('ok', value) or ('error', type and text, traceback)."""
    start()
    _send(_Z[1], (fn, args))
    return _recv(_Z[2])
