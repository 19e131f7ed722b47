"""Run a function in a forked child, so that a case starts from a process in which the library has done nothing yet."""

import os
import pickle
import select
import signal
import sys
import time

from pbt.core import HarnessError, Hang

TIMEOUT_S = 120


def in_child(fn, *args):
    """fn(*args) in a forked child; its (picklable) result, or its exception re-raised here."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(0)
            try:
                payload = ("ok", fn(*args))
            except BaseException as e:
                payload = ("raised", e)
            try:
                data = pickle.dumps(payload)
            except Exception:
                data = pickle.dumps(("text", repr(payload[1])[:500]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + TIMEOUT_S
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise Hang(f"no answer within {TIMEOUT_S} s")
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, status = os.waitpid(pid, 0)
    if not chunks:
        raise HarnessError(f"child ended without an answer (status {status})")
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "ok":
        return value
    if kind == "raised":
        raise value
    raise RuntimeError(value)
