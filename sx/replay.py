"""Client of the replay worker."""
import os
import pickle
import resource
import select
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def repo_root():
    return os.environ.get("LNK_REPO", "/repo")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "sx", "worker.py"), repo_root(), VERIF],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/",
            preexec_fn=_limits,
        )

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, scen, data, timeout=30):
        """('ok', pairs) | ('error', text) | ('timeout', None)"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        b = pickle.dumps((scen, data))
        try:
            self.p.stdin.write(struct.pack("<Q", len(b)) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return ("error", "worker died")
        end = time.time() + timeout
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return ("timeout", None)
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            c = os.read(fd, 1 << 20)
            if not c:
                self.stop()
                return ("error", "worker died")
            buf += c
            if len(buf) >= 8:
                (n,) = struct.unpack("<Q", buf[:8])
                if len(buf) >= 8 + n:
                    return pickle.loads(buf[8 : 8 + n])
