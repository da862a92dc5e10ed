"""A process in which the package was only imported, and which forks.

start() must be called before the calling process has run any code of the
package; each call of ask() then runs the function in a fresh fork of that
pristine process."""
import gc
import os
import pickle
import signal

_Z = None


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = len(data).to_bytes(8, 'big') + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            raise EOFError('a forked process died')
        out += b
    return out


def _recv(fd):
    return pickle.loads(_read(fd, int.from_bytes(_read(fd, 8), 'big')))


def forked(fn, *args):
    """The result of fn(*args) in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            _send(w, fn(*args))
        finally:
            os._exit(0)
    os.close(w)
    try:
        return _recv(r)
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def start():
    """Idempotent per process."""
    global _Z
    if _Z is not None and _Z[0] == os.getpid():
        return
    ar, aw = os.pipe()
    br, bw = os.pipe()
    if os.fork() == 0:
        os.close(aw)
        os.close(br)
        gc.freeze()
        try:
            while True:
                fn, args = _recv(ar)
                try:
                    res = ('ok', forked(fn, *args))
                except EOFError:
                    res = ('died', None)
                _send(bw, res)
        finally:
            os._exit(0)
    os.close(ar)
    os.close(bw)
    _Z = (os.getpid(), aw, br)


def ask(fn, *args):
    """fn must be importable; raises EOFError if the fork died."""
    _send(_Z[1], (fn, args))
    kind, res = _recv(_Z[2])
    if kind != 'ok':
        raise EOFError('the forked process died')
    return res
