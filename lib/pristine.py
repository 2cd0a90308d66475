"""Run a function of plain data in a process that has done nothing before.

start() forks a server while the library has only been imported; every call
forks the server again and runs there."""
import json
import os
import signal
import struct
import sys

_srv = None


def _send(f, o):
    b = json.dumps(o).encode()
    os.write(f, struct.pack(">I", len(b)))
    while b:
        n = os.write(f, b)
        b = b[n:]


def _read(f, n):
    out = b""
    while len(out) < n:
        b = os.read(f, n - len(out))
        if not b:
            return None
        out += b
    return out


def _recv(f):
    h = _read(f, 4)
    if h is None:
        return None
    b = _read(f, struct.unpack(">I", h)[0])
    return None if b is None else json.loads(b)


def start(fn, limit=20):
    """fn(request) -> plain data"""
    global _srv
    if _srv is not None and _srv[0] == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            while True:
                req = _recv(r1)
                if req is None:
                    break
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        signal.signal(signal.SIGPROF, signal.SIG_DFL)
                        signal.setitimer(signal.ITIMER_PROF, limit)
                        _send(w2, {"ok": fn(req)})
                    except BaseException as e:
                        import traceback
                        _send(w2, {"error": traceback.format_exc()})
                    os._exit(code)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    _send(w2, {"dead": st})
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _srv = (os.getpid(), w1, r2)


def call(req):
    _send(_srv[1], req)
    r = _recv(_srv[2])
    if r is None:
        raise RuntimeError("pristine server gone")
    if "error" in r:
        raise RuntimeError("in the pristine process:\n" + r["error"])
    return r.get("ok", ["dead", r.get("dead")])
