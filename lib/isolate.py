"""Running a function in a forked child: what it leaves behind in the process is not seen by others."""

from __future__ import annotations
import os
import pickle
import select
import signal
import sys
import time
import traceback
from .pbt import HarnessError, Violation, frames_in_package


def in_child(func, *args, timeout=120.0):
    """Result of func(*args) computed in a forked child.

    What the function raises is raised again: Violation as such, an error of the package under test
    as PackageError, anything else as HarnessError.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            try:
                out = ("ok", func(*args))
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:  # pylint: disable=broad-except
                kind = "package" if frames_in_package(e) else "error"
                tb = "".join(traceback.format_exception(e))[-4000:]
                out = (kind, (f"{type(e).__name__}: {e}", tb))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + timeout
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise HarnessError("a child did not finish in time")
            chunk = f.read(1 << 20)
            if not chunk:
                break
            data += chunk
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a child ended without a result")
    kind, out = pickle.loads(data)
    if kind == "ok":
        return out
    if kind == "violation":
        raise Violation(out)
    if kind == "package":
        raise PackageError(*out)
    raise HarnessError(out[1])


class PackageError(Exception):
    """An exception raised by the code under test in a child."""

    def __init__(self, message, tb):
        super().__init__(message)
        self.tb = tb
