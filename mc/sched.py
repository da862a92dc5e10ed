"""Controlled scheduler: two threads of the real code, one runnable at a time,
switched at chosen line or opcode events of the package's sources.

Every schedule runs in a fresh fork of a process in which the package was only
imported, so lazily filled state starts cold each time.
"""
import gc
import os
import pickle
import signal
import sys
import threading
import types

from . import impl

_FROZEN = False
_CODES = []
ROOT = os.path.abspath(impl.REPO_SRC) + os.sep


class Run(object):
    def __init__(self, fns, plan, opcodes):
        self.fns = fns
        self.plan = list(plan)       # [(thread, events or None), ...]
        self.opcodes = opcodes
        self.events = [0] * len(fns)
        self.left = None
        self.current = None
        self.free = False
        self.done = [False] * len(fns)
        self.wake = [threading.Event() for _ in fns]
        self.ready = [threading.Event() for _ in fns]
        self.over = threading.Event()
        self.results = [None] * len(fns)

    # -- scheduling (only the thread holding the baton is here) --
    def advance(self):
        while self.plan:
            t, n = self.plan.pop(0)
            if self.done[t]:
                continue
            self.current, self.left = t, n
            self.wake[t].set()
            return t
        self.current = None
        for t, d in enumerate(self.done):    # plan used up: let all finish
            if not d:
                self.current, self.left = t, None
                self.wake[t].set()
                return t
        return None

    def wait(self, me):
        seen = -1
        while not self.wake[me].wait(2.0):
            total = sum(self.events)
            if total == seen:        # the other one is blocked on a lock
                self.free = True     # that we hold: let both run
                break
            seen = total
        self.wake[me].clear()

    def point(self, me):
        self.events[me] += 1
        if self.free or self.left is None or self.current != me:
            return
        if self.left == 0:
            if self.advance() != me:
                self.wait(me)
            return
        self.left -= 1

    def body(self, me):
        _WHO[threading.get_ident()] = me
        self.wait(me)
        try:
            r = ('ok', self.fns[me]())
        except Exception as e:
            r = ('raised', type(e).__name__, str(e)[:200])
        _WHO.pop(threading.get_ident(), None)
        self.results[me] = r
        self.done[me] = True
        if not self.free:
            self.advance()

    def go(self):
        global _RUN
        _RUN = self
        instrument(self.opcodes)
        ts = [threading.Thread(target=self.body, args=(i,))
              for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.advance()
        for t in ts:
            t.join()
        return self.results, self.events


_RUN = None
_WHO = {}
MON = sys.monitoring


def _event(code, where):
    me = _WHO.get(threading.get_ident())
    if me is not None:
        _RUN.point(me)


def codes():
    """Every code object of the package's sources."""
    todo = [o.__code__ for o in gc.get_objects()
            if isinstance(o, types.FunctionType)]
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen or not os.path.abspath(
                c.co_filename).startswith(ROOT):
            continue
        seen.add(id(c))
        yield c
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))


def instrument(opcodes):
    MON.use_tool_id(MON.DEBUGGER_ID, 'mc')
    ev = MON.events.INSTRUCTION if opcodes else MON.events.LINE
    MON.register_callback(MON.DEBUGGER_ID, ev, _event)
    for c in _CODES:
        MON.set_local_events(MON.DEBUGGER_ID, c, ev)


def in_fork(fn, seconds=60):
    """fn() in a forked child; (status, value)."""
    global _FROZEN
    if not _FROZEN:
        _CODES.extend(codes())
        gc.collect()
        gc.freeze()
        _FROZEN = True
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException:
            os._exit(7)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if status != 0:
        return status, None
    return 0, pickle.loads(b''.join(chunks))


def schedule(names, ops, setup, plan, opcodes):
    def fn():
        shared = setup(names)
        fns = [(lambda op=ops[n]: op(shared)) for n in names]
        return Run(fns, plan, opcodes).go()
    return in_fork(fn)
