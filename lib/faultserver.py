"""Executes single fault/crash cases on behalf of lib/faults.py.

Runs with the iofault shim preloaded; reads one JSON request per line and
answers with one JSON line.  Every case runs in a forked child."""
import ctypes
import gc
import json
import os
import select
import signal
import sys
import time
import traceback

COUNT, CRASH, FAULT, SHORT, SIGNAL, STUCK = 1, 2, 3, 4, 5, 6


class Shim(object):
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.ezs_op.restype = ctypes.c_char_p
        self.lib.ezs_len.restype = ctypes.c_long
        self.lib.ezs_disarm.restype = ctypes.c_long
        for n in ("ezs_op", "ezs_len", "ezs_mut"):
            getattr(self.lib, n).argtypes = [ctypes.c_long]
        self.lib.ezs_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]

    def prefix(self, path):
        self.lib.ezs_prefix(path.encode())

    def arm(self, mode, k, err=0, part=0):
        gc.collect()
        gc.disable()
        self.lib.ezs_arm(mode, k, err, part)

    def disarm(self):
        n = self.lib.ezs_disarm()
        gc.enable()
        return [[self.lib.ezs_op(i).decode(), self.lib.ezs_len(i), self.lib.ezs_mut(i)]
                for i in range(min(n, 4096))]


SHIM = None
TIMEOUT = 60


def in_child(fn):
    """Run fn in a forked child; returns (exit status or 'hang', result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = {"value": fn()}
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                res = {"error": "%s: %s [%s]" % (type(e).__name__, e, " > ".join(
                    "%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:]))}
            os.write(w, json.dumps(res).encode())
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.time() + TIMEOUT
    hang = False
    while True:
        ready = select.select([r], [], [], max(0, end - time.time()))[0]
        if not ready:
            os.kill(pid, signal.SIGKILL)
            hang = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if hang:
        return "hang", None
    code = os.waitstatus_to_exitcode(status)
    return code, json.loads(b"".join(chunks)) if chunks else None


def main():
    global SHIM
    verif, repo, module = sys.argv[1:4]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-ezmc-pycache"
    sys.path[:0] = [verif, repo]
    import importlib
    SHIM = Shim()
    sys.modules["lib.faultserver"] = sys.modules["__main__"]
    mod = importlib.import_module(module)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = mod.serve(req)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            res = {"crash": "%s: %s [%s]" % (type(e).__name__, e, " > ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
