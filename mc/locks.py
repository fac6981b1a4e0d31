"""Locks of the code under test that give the turn away instead of blocking
when a controlled thread (see sched) finds them taken."""
import _thread
import os
import sys
import threading

turn = threading.local()        # .run, .me in controlled threads
root = None
real = {'Lock': threading.Lock, 'RLock': threading.RLock}


class Cooperative:
    def __init__(self, inner):
        self._inner = inner

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            return self._inner.acquire(False)
        run = getattr(turn, 'run', None)
        if run is None or timeout != -1:
            return self._inner.acquire(blocking, timeout)
        while not self._inner.acquire(False):
            run.blocked(turn.me)
        return True

    __enter__ = acquire

    def release(self):
        self._inner.release()
        run = getattr(turn, 'run', None)
        if run is not None:
            run.moves += 1

    def __exit__(self, *args):
        self.release()

    def __getattr__(self, name):
        return getattr(self._inner, name)


def factory(name):
    def make():
        lock = real[name]()
        caller = sys._getframe(1).f_code.co_filename
        return Cooperative(lock) if os.path.realpath(caller).startswith(root) else lock
    return make


def install(tree):
    """from now on, locks made by code in the tree are cooperative"""
    global root
    root = os.path.realpath(tree) + os.sep
    for name in real:
        setattr(threading, name, factory(name))
