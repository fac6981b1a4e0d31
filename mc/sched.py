"""Controlled threads: every line (or bytecode) of the package is a scheduling
point, one thread runs at a time, and the explorer decides where to switch."""
import os
import sys
import threading
import types
from . import core, locks

ROOT = os.path.realpath(core.REPO) + os.sep


patience = [3.0]        # how long to wait for locks that are not noticed (see locks)


class Stuck(Exception):
    pass


class Deadlock(Exception):
    pass


class Run:
    """One execution. plan: {step number: thread to switch to}; otherwise a
    thread runs until it ends, then the one with the lowest number goes on.
    last: nothing is recorded after the last planned switch."""

    def __init__(self, bodies, plan, first=0, opcodes=False, last=False):
        self.bodies, self.plan, self.opcodes = bodies, plan, opcodes
        self.n = len(bodies)
        self.current = first
        self.alive = [True] * self.n
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = threading.Semaphore(0)
        self.results = [None] * self.n
        self.step = 0
        self.points = []        # the thread that is running at each step
        self.lines = []         # and where it is
        self.free = False
        self.end = max(plan) if last and plan else None
        self.moves = 0          # locks released, threads ended
        self.waits = {}         # the number of moves when a thread last found a lock taken

    def point(self, me, where):
        if self.free or (self.end is not None and self.step > self.end):
            sys.settrace(None)
            return
        if self.current != me:
            self.wait(me)
        k = self.step
        self.step = k + 1
        if self.end is None:
            self.points.append(me)
            self.lines.append((me,) + where)
        to = self.plan.get(k)
        if to is not None and to != me and self.alive[to]:
            self.current = to
            self.sems[to].release()
            self.wait(me)
            if k == self.end:
                sys.settrace(None)

    def wait(self, me):
        while True:
            before = self.step
            if self.sems[me].acquire(timeout=patience[0]):
                return
            if self.step == before and not self.free:
                # the running thread waits for something that this one has
                patience[0] = 0.3
                self.current = me
                return

    def blocked(self, me):
        """the thread finds a lock taken: another one goes on"""
        self.waits[me] = self.moves
        others = [k for k in range(self.n) if self.alive[k] and self.waits.get(k) != self.moves]
        if not others:
            raise Deadlock()
        self.current = others[0]
        self.sems[others[0]].release()
        self.wait(me)

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'opcode' or (event == 'line' and not self.opcodes):
                self.point(me, (frame.f_code, frame.f_lasti))
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def thread(self, me):
        self.sems[me].acquire()
        locks.turn.run, locks.turn.me = self, me
        if self.end is None or self.step <= self.end:
            sys.settrace(self.trace(me))
        try:
            r = ('value', self.bodies[me]())
        except BaseException as e:
            r = ('raised', '%s: %s' % (type(e).__name__, e))
        sys.settrace(None)
        self.results[me] = r
        self.alive[me] = False
        self.moves += 1
        for k in range(self.n):
            if self.alive[k]:
                self.current = k
                self.sems[k].release()
                break
        self.done.release()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts:
            t.start()
        self.sems[self.current].release()
        for _ in ts:
            if not self.done.acquire(timeout=60):
                self.free = True
                raise Stuck()
        for t in ts:
            t.join()
        return self


def candidates(run, start, visits):
    """steps where a preemption is tried; visits: at every visit of a line
    (None), at its first `visits` ones and its last one of each thread, or at
    the first one only (0)"""
    if visits is None:
        return range(start, len(run.points))
    count, last, keep = {}, {}, set()
    for k, w in enumerate(run.lines):
        n = count[w] = count.get(w, 0) + 1
        last[w] = k
        if n <= max(visits, 1):
            keep.add(k)
    if visits:
        keep.update(last.values())
    return sorted(k for k in keep if k >= start)


def explore(make, check, bound, opcodes=False, visits=None, firsts=None):
    """Run make() -> bodies under every schedule with at most `bound`
    preemptions (see candidates), from every first thread (or those of
    firsts). check(run) judges one execution."""
    bodies = make()
    for first in range(len(bodies)) if firsts is None else firsts:
        stack = [()]
        while stack:
            pre = stack.pop()
            reset_modules()
            run = Run(make(), dict(pre), first, opcodes, len(pre) == bound)
            run.go()
            check(run, first, pre)
            if len(pre) < bound:
                for k in candidates(run, pre[-1][0] + 1 if pre else 0, visits):
                    for to in range(run.n):
                        if to != run.points[k]:
                            stack.append(pre + ((k, to),))


# ------------------------------------------------------------ module-level state

_initial = None


def _containers(v):
    return isinstance(v, (dict, list, set))


def _namespaces():
    for name, m in sorted(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if not f or not os.path.realpath(f).startswith(ROOT):
            continue
        yield ('m', name), m
        for k, v in sorted(vars(m).items()):
            if isinstance(v, type) and v.__module__ == name:
                yield ('c', name, k), v
                for a, w in sorted(vars(v).items()):
                    w = getattr(w, '__func__', w)
                    if isinstance(w, types.FunctionType):
                        yield ('f', name, k, a), w
            elif isinstance(v, types.FunctionType) and v.__module__ == name:
                yield ('f', name, k), v


def save_modules():
    """remember the module-level state of the package as it is after import"""
    global _initial
    _initial = []
    for key, ns in _namespaces():
        if isinstance(ns, types.FunctionType):
            for c in list(ns.__defaults__ or ()) + list((ns.__kwdefaults__ or {}).values()):
                if _containers(c):
                    _initial.append((None, None, c, type(c)(c)))
            _initial.append((ns.__dict__, None, None, dict(ns.__dict__)))
        else:
            for k, v in list(vars(ns).items()):
                if k.startswith('__'):
                    continue
                if _containers(v):
                    _initial.append((ns, k, v, type(v)(v)))
                elif isinstance(v, (int, float, str, tuple, type(None))):
                    _initial.append((ns, k, v, None))
                elif hasattr(v, 'cache_clear'):
                    _initial.append((None, 'cache_clear', v, None))


def reset_modules():
    """executions must not see what earlier ones left in module-level variables"""
    if _initial is None:
        return
    for ns, k, v, content in _initial:
        if k == 'cache_clear':
            v.cache_clear()
            continue
        if isinstance(ns, dict):
            if ns != content:
                ns.clear()
                ns.update(content)
            continue
        if ns is not None and vars(ns).get(k) is not v:
            setattr(ns, k, v)
        if content is not None and v != content:
            v.clear()
            (v.extend if isinstance(v, list) else v.update)(content)
