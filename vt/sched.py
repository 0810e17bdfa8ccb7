# -*- coding: utf-8 -*-
"""Runs threads under a generated schedule.

One thread runs at a time. It may be preempted at every line (or bytecode) it
executes in the code under test, and at points set by the harness. The
schedule is a list of ``[thread, steps]``; when it is used up, each thread
runs to its end in turn.

A thread that makes no progress is taken to be blocked in a lock and another
one runs. Taking a slow thread for a blocked one lets two threads run at
once, so what is checked must not rely on threads running one at a time, and
does not.
"""
import os
import sys
import threading
import time

from vt import env
from vt.core import Violation

PATIENCE = 0.03      # seconds without progress: blocked
GRACE = 8.0          # seconds a thread may be blocked for no reason

LIB = os.path.join(os.path.abspath(env.SRC), 'node') + os.sep


class Cancelled(BaseException):
    pass


class Sched(object):

    def __init__(self, funcs, schedule, opcodes=False, may_block=None):
        """may_block(thread): whether the thread has to wait at the moment."""
        self.funcs = funcs
        self.schedule = list(schedule)
        self.opcodes = opcodes
        self.may_block = may_block
        self.cond = threading.Condition()
        self.n = len(funcs)
        self.state = ['ready'] * self.n   # ready, blocked, done
        self.inlib = [False] * self.n
        self.waiting = [False] * self.n   # for their turn
        self.errors = [None] * self.n
        self.total = [0] * self.n
        self.current = None
        self.left = 0
        self.progress = 0
        self.drain = False
        self.cancelled = False
        self.switches = 0
        self.blocks = 0
        self.local = threading.local()

    # called in threads

    def point(self):
        """Preemption point of the harness."""
        self.step(False)

    def step(self, inlib):
        me = getattr(self.local, 'me', None)
        if me is None:
            return
        self.progress += 1
        self.total[me] += 1
        self.inlib[me] = inlib
        if self.current == me and self.state[me] == 'ready':
            if self.drain and inlib:
                return
            self.left -= 1
            if self.left > 0:
                return
        with self.cond:
            if self.state[me] == 'blocked':
                self.state[me] = 'ready'
            if self.current is None:
                self.other()
            elif self.current == me:
                self.drain = False
                self.choose()
                if self.current != me:
                    self.switches += 1
            self.cond.notify_all()
            if not self.turn(me):
                raise Cancelled()

    def turn(self, me):
        """Wait for the turn of this thread; it is not blocked meanwhile."""
        self.waiting[me] = True
        try:
            while self.current != me:
                if self.state[me] == 'blocked':
                    # taken for blocked before it woke up
                    self.state[me] = 'ready'
                    if self.current is None:
                        self.other()
                        self.cond.notify_all()
                        continue
                self.cond.wait(1)
                if self.cancelled:
                    return False
        finally:
            self.waiting[me] = False
            self.progress += 1
        return True

    def choose(self):
        """Set the thread to run next by schedule."""
        while self.schedule:
            thread, steps = self.schedule.pop(0)
            thread %= self.n
            if self.state[thread] == 'ready':
                self.current, self.left = thread, max(1, steps)
                return
        self.other()

    def other(self):
        ready = [i for i in range(self.n) if self.state[i] == 'ready']
        if ready:
            if self.current not in ready:
                self.current = ready[0]
            self.left = 10 ** 9
        else:
            self.current = None

    def trace(self, frame, event, arg):
        if event != 'call' or not frame.f_code.co_filename.startswith(LIB):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.trace_lines

    def trace_lines(self, frame, event, arg):
        if event == 'opcode' or (event == 'line' and not self.opcodes):
            self.step(True)
        return self.trace_lines

    def thread(self, me):
        self.local.me = me
        try:
            with self.cond:
                if not self.turn(me):
                    return
            sys.settrace(self.trace)
            try:
                self.funcs[me]()
            finally:
                sys.settrace(None)
        except Cancelled:
            pass
        except BaseException as e:
            self.errors[me] = e
        finally:
            with self.cond:
                self.state[me] = 'done'
                self.progress += 1
                if self.current == me:
                    self.choose()
                self.cond.notify_all()

    # called in the main thread

    def run(self):
        threads = [threading.Thread(target=self.thread, args=(i,),
                                    daemon=True) for i in range(self.n)]
        self.choose()
        for thread in threads:
            thread.start()
        try:
            self.supervise()
        finally:
            with self.cond:
                self.cancelled = True
                self.cond.notify_all()
        for thread in threads:
            thread.join(GRACE)
        for error in self.errors:
            if error is not None:
                raise error

    def supervise(self):
        seen, stuck = None, None
        last = time.time()
        while True:
            with self.cond:
                if all(x == 'done' for x in self.state):
                    return
                if any(e is not None for e in self.errors):
                    return
                if self.progress == seen:
                    self.cond.wait(PATIENCE)
                else:
                    seen = self.progress
                    stuck = None
                    last = time.time()
                    self.cond.wait(PATIENCE)
                if self.progress != seen:
                    continue
                if self.current is not None \
                        and self.state[self.current] == 'ready' \
                        and time.time() - last >= PATIENCE:
                    if self.waiting[self.current]:
                        # it did not wake up yet
                        self.cond.notify_all()
                        continue
                    self.blocked(self.current)
                    last = time.time()
                    continue
                if self.current is None:
                    # all threads that are not done are blocked
                    if stuck is None:
                        stuck = time.time()
                    elif time.time() - stuck > GRACE:
                        raise Violation('threads are blocked forever: %s'
                                        % self.state)
                    for i in range(self.n):
                        # it may just have come back
                        if self.state[i] == 'ready':
                            self.current, self.left = i, 10 ** 9
                            self.cond.notify_all()

    def blocked(self, i):
        self.state[i] = 'blocked'
        self.blocks += 1
        if self.may_block is not None and not self.may_block(i):
            # someone may be inside of the code under test; let them get out
            others = [j for j in range(self.n)
                      if self.state[j] == 'ready' and self.inlib[j]]
            if others:
                self.current, self.left, self.drain = others[0], 1, True
                self.cond.notify_all()
                return
            if all(self.state[j] != 'blocked' or self.may_block(j)
                   for j in range(self.n) if j != i):
                start = time.time()
                while self.state[i] == 'blocked':
                    self.cond.wait(PATIENCE)
                    if not self.may_block(i) \
                            and time.time() - start > GRACE:
                        raise Violation('thread %d is blocked for no reason'
                                        % i)
        self.drain = False
        self.choose()
        self.cond.notify_all()
