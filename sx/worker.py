"""Replay worker: runs scenarios on the real, uninstrumented code, each in a
process of its own that has only loaded the code."""
import ctypes
import importlib
import os
import pickle
import signal
import struct
import sys
import traceback


def main():
    root, verif = sys.argv[1], sys.argv[2]
    sys.dont_write_bytecode = True
    sys.path[:0] = [root, verif]
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    L = importlib.import_module("LnkParse3.lnk_file")

    assert os.path.realpath(L.__file__).startswith(os.path.realpath(root)), L.__file__
    from sx.env import PlainEnv, Skip

    mod = importlib.import_module("spec.scen")
    sys.setrecursionlimit(2000)
    libc = ctypes.CDLL(None)
    parent = os.getpid()
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        (n,) = struct.unpack("<Q", h)
        scen, data = pickle.loads(inp.read(n))
        pid = os.fork()
        if pid:
            _, status = os.waitpid(pid, 0)
            if status:
                return
            continue
        libc.prctl(1, signal.SIGKILL)  # end with the worker
        if os.getppid() != parent:
            os._exit(1)
        try:
            res = ("ok", getattr(mod, scen)(PlainEnv(L, "LnkParse3"), data))
        except Skip:
            res = ("ok", [])
        except MemoryError:
            res = ("error", "MemoryError")
        except Exception:
            res = ("error", traceback.format_exc())
        b = pickle.dumps(res)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()
        os._exit(0)


if __name__ == "__main__":
    main()
