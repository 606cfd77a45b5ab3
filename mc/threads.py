# -*- coding: utf-8 -*-
"""A scheduler of real threads: one runs at a time, and it is preempted exactly at the steps asked for.

A step is a call, a line or a bytecode (the grain) of the code under test. Every run is a schedule: a list of (step, thread); the run starts
with thread 0, and at the given step of the run the given thread takes over. A thread which ends is followed by the next
one."""
import os
import sys
import threading

import ngoschema

ROOT = os.path.dirname(os.path.abspath(ngoschema.__file__)) + os.sep


class Stuck(Exception):
    pass


class Lock(object):
    """a lock the scheduler knows: a thread waiting for it gives way"""
    run = None      # the current one

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        run = Lock.run
        while self.owner is not None:
            if not blocking or run is None:
                return False
            run.give_way()
        self.owner = threading.get_ident()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


class known_locks(object):
    """locks made here are known by the scheduler"""
    def __enter__(self):
        self.saved = threading.Lock
        threading.Lock = Lock

    def __exit__(self, *args):
        threading.Lock = self.saved


class Run(object):
    STALL = 0.2         # a thread waiting for a lock another one holds
    LIMIT = 60

    def __init__(self, workers, schedule=(), grain='line', to_the_end=True):
        self.workers, self.schedule, self.grain = workers, list(schedule), grain
        self.n = len(workers)
        self.to_the_end = to_the_end        # steps are counted after the last preemption too
        self.cond = threading.Condition(threading.Lock())
        self.current = 0
        self.steps = 0
        self.runs = []                      # the thread of each step
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.abort = False
        self.ids = {}
        self.waiting = [False] * self.n     # at a step, for its turn

    # ---- in the threads
    def step(self, me):
        if self.current == me and not self.abort:       # nobody else runs
            if not self.schedule:
                if not self.to_the_end:
                    sys.settrace(None)
                    return
            elif self.schedule[0][0] != self.steps:
                self.steps += 1
                self.runs.append(me)
                return
        with self.cond:
            while self.current != me:
                if self.abort:
                    raise SystemExit()
                self.waiting[me] = True
                self.cond.notify_all()
                self.cond.wait(1)
            self.waiting[me] = False
            if self.abort:
                raise SystemExit()
            s = self.steps
            self.steps += 1
            self.runs.append(me)
            if self.schedule and self.schedule[0][0] == s:
                to = self.schedule.pop(0)[1]
                if not self.done[to] and to != me:
                    self.current = to
                    self.cond.notify_all()
                    while self.current != me:
                        if self.abort:
                            raise SystemExit()
                        self.waiting[me] = True
                        self.cond.wait(1)
                    self.waiting[me] = False

    def give_way(self):
        me = self.ids[threading.get_ident()]
        with self.cond:
            others = [i for i in range(self.n) if not self.done[i] and i != me]
            if not others:
                raise Stuck('a lock is never released')
            after = [i for i in others if i > me] + others
            self.current = after[0]
            self.cond.notify_all()
            while self.current != me:
                if self.abort:
                    raise SystemExit()
                self.waiting[me] = True
                self.cond.wait(1)
            self.waiting[me] = False

    def tracer(self, me):
        def local(frame, event, arg):
            if event == self.grain:
                self.step(me)
            return local

        def tracing(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if self.grain == 'opcode':
                frame.f_trace_opcodes = True
            if self.grain == 'call':
                self.step(me)
                return None
            return local
        return tracing

    def body(self, me):
        self.ids[threading.get_ident()] = me
        try:
            with self.cond:
                while self.current != me:
                    self.waiting[me] = True
                    self.cond.wait(1)
                    if self.abort:
                        return
                self.waiting[me] = False
            if self.schedule or self.to_the_end:
                sys.settrace(self.tracer(me))
            try:
                res = ('ok', self.workers[me]())
            except Exception as er:
                res = ('err', er)
            finally:
                sys.settrace(None)
            self.results[me] = res
        finally:
            with self.cond:
                self.done[me] = True
                if self.current == me:
                    left = [i for i in range(self.n) if not self.done[i]]
                    after = [i for i in left if i > me] + left
                    self.current = after[0] if after else None
                self.cond.notify_all()

    # ---- the control
    def __call__(self):
        Lock.run = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        stalls = 0
        with self.cond:
            last = None
            while not all(self.done):
                state = (self.steps, tuple(self.done), self.current)
                self.cond.wait(self.STALL)
                if (self.steps, tuple(self.done), self.current) == state == last:
                    # the current thread waits for a lock: another one goes on
                    stalls += 1
                    others = [i for i in range(self.n) if not self.done[i] and i != self.current and self.waiting[i]]
                    if stalls > 400:
                        self.abort = True
                        self.cond.notify_all()
                        raise Stuck('threads wait for each other')
                    if others:
                        self.current = others[0]
                        self.cond.notify_all()
                last = state
        for t in ts:
            t.join(self.LIMIT)
        Lock.run = None
        return self.results

