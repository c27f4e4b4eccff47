"""Crash and fault injection at every file-system operation of a piece of real code.

The process runs with native/fsshim.so preloaded. `run(fn, prefix, k, mode, torn)` forks, arms the
shim in the child and runs fn there; the shim counts the mutating file-system calls below `prefix`
(whoever makes them: Python, Rust, C++) and at call k dies, tears a write, or reports ENOSPC.
"""
from __future__ import annotations

import ctypes
import os
import pickle
import signal
import sys
import traceback

from mc.core import HarnessError, VERIF

DIE, TORN, FAIL_ONCE, FAIL_ON, STOP = 1, 2, 3, 4, 5
HALF = 1 << 40
_lib = None


def ensure_preloaded():
    """Re-exec this process with the shim preloaded (called first thing by the property module)."""
    global _lib
    so = os.path.join(VERIF, ".build", f"fsshim-{os.getpid()}.so")
    if "MC_SHIM" not in os.environ:
        import subprocess
        os.makedirs(os.path.dirname(so), exist_ok=True)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", so, os.path.join(VERIF, "native", "fsshim.c"), "-ldl"],
                       check=True)
        env = dict(os.environ, LD_PRELOAD=so, MC_SHIM=so)
        from mc import core
        if core._scratch_root:
            os.rmdir(core._scratch_root)
        os.execve(sys.executable, [sys.executable, "-m", "mc"] + sys.argv[1:], env)
    so = os.environ["MC_SHIM"]
    _lib = ctypes.CDLL(so)
    _lib.mc_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_long]
    _lib.mc_count.restype = ctypes.c_long
    _lib.mc_log.restype = ctypes.c_long
    _lib.mc_log.argtypes = [ctypes.c_char_p, ctypes.c_long]
    try:
        os.unlink(so)  # stays mapped
    except OSError:
        pass
    os.environ.pop("LD_PRELOAD", None)


class Result:
    __slots__ = ("status", "value", "error", "ops")

    def __init__(self, status, value=None, error=None, ops=None):
        self.status = status  # "ok", "error" (fn raised), "died" (at the injected point)
        self.value = value
        self.error = error
        self.ops = ops


class Process:
    """fn in a forked child under the shim; with mode STOP it can be paused and continued."""

    def __init__(self, fn, prefix, k=-1, mode=0, torn=HALF):
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(self.r)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                _lib.mc_arm(prefix.encode(), k, mode, torn)
                try:
                    val = ("ok", fn(), None)
                except BaseException as e:
                    val = ("error", None, f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6))
                _lib.mc_disarm()
                buf = ctypes.create_string_buffer(1 << 20)
                n = _lib.mc_log(buf, len(buf))
                ops = buf.raw[:n].decode(errors="replace").splitlines()
                with os.fdopen(w, "wb") as f:
                    pickle.dump((*val, ops), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        self.status = None

    def paused(self):
        """Wait until the child stops (True) or ends (False)."""
        _, st = os.waitpid(self.pid, os.WUNTRACED)
        if os.WIFSTOPPED(st):
            return True
        self.status = st
        return False

    def resume(self):
        os.kill(self.pid, signal.SIGCONT)

    def join(self):
        with os.fdopen(self.r, "rb") as f:
            data = f.read()
        if self.status is None:
            _, self.status = os.waitpid(self.pid, 0)
        st = self.status
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            return Result("died")
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            return Result(*pickle.loads(data))
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            return Result("hang")
        return Result("crashed", error=f"wait status {st}")


def run(fn, prefix, k=-1, mode=0, torn=HALF):
    return Process(fn, prefix, k, mode, torn).join()
