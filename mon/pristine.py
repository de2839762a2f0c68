"""Answers from a process in which nothing has happened yet.

``start`` forks a server before this process has made any map; ``ask`` has it fork once more for each question, so
that no state of a class or module, of this or earlier cases, can reach the answer.
"""
import os
import pickle
import struct

from . import obs

_server = None


class Raised(Exception):
    """The question was answered with an exception, of the type named."""


def start():
    """Fork the server, once in each worker process, before it makes its first map."""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    qr, qw = os.pipe()
    ar, aw = os.pipe()
    if os.fork() == 0:
        try:
            os.close(qw)
            os.close(ar)
            serve(qr, aw)
        finally:
            os._exit(0)
    os.close(qr)
    os.close(aw)
    _server = (os.getpid(), qw, ar)


def serve(qr, aw):
    while True:
        q = receive(qr)
        if q is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                fn, args = pickle.loads(q)
                r = obs.attempt(fn, *args)
                a = pickle.dumps(("ok", r[1]) if r[0] == "ok" else ("exc", r[1].__name__, str(r[2])[:300]))
                send(aw, a)
            except BaseException as e:
                send(aw, pickle.dumps(("lost", repr(e))))
            os._exit(0)
        os.waitpid(pid, 0)


def send(fd, b):
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def receive(fd):
    n = read(fd, 8)
    return read(fd, struct.unpack("<q", n)[0]) if n else None


def read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def ask(fn, *args):
    """fn(*args) as it is in a process that has done nothing else; raises Raised for an exception."""
    from .core import Inconclusive
    send(_server[1], pickle.dumps((fn, args)))
    a = receive(_server[2])
    if a is None:
        raise Inconclusive("the process for fresh answers is gone")
    a = pickle.loads(a)
    if a[0] == "lost":
        raise Inconclusive("no fresh answer: " + a[1])
    if a[0] == "exc":
        e = Raised(a[2])
        e.name = a[1]
        raise e
    return a[1]
