"""Controlled scheduler: runs the real threads of the code under test one at a time, switching only where told to.

Switch points are the lines (or bytecode instructions) of chosen source files, thread start and finish, and waiting
(Event.wait, Thread.join). explore() enumerates every schedule with at most `bound` preemptions.
"""
import os
import sys
import threading
import _thread
import time

from mc.core import Violation


class Abandon(BaseException):
    pass


class Task(object):
    def __init__(self, ident):
        self.ident = ident
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.ready = None      # predicate that must hold before it can go on
        self.finished = False
        self.stuck = False     # blocked on something the scheduler does not know
        self.error = None


class Scheduler(object):
    def __init__(self, prefix, files, opcodes=False, limit=20000):
        self.prefix = list(prefix)
        self.files = files
        self.opcodes = opcodes
        self.limit = limit
        self.tasks = []
        self.by_thread = {}
        self.control = _thread.allocate_lock()
        self.control.acquire()
        self.decisions = []    # (options, chosen index, preemptive alternatives?)
        self.abandoned = False
        self.mutex = _thread.allocate_lock()
        self.maximum = 0
        self.diverged = 0

    # -- inside controlled threads

    def me(self):
        return self.by_thread.get(_thread.get_ident())

    def pause(self, ready=None):
        task = self.me()
        if task is None:
            return False
        task.ready = ready
        self.control.release()
        task.go.acquire()
        task.ready = None
        if self.abandoned:
            raise Abandon()
        return True

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') and self.me() is not None:
            self.pause()
        return self.local

    def body(self, task, function):
        self.by_thread[_thread.get_ident()] = task
        task.go.acquire()
        try:
            if self.abandoned:
                return
            sys.settrace(self.trace)
            function()
        except Abandon:
            pass
        except BaseException as error:
            task.error = error
        finally:
            sys.settrace(None)
            task.finished = True
            del self.by_thread[_thread.get_ident()]
            self.control.release()

    # -- patches

    def install(self):
        scheduler = self
        self.saved = (threading.Thread.start, threading.Thread.join, threading.Event.wait)
        real_start, real_join, real_wait = self.saved

        def start(thread):
            if scheduler.me() is None:
                return real_start(thread)
            task = Task(len(scheduler.tasks))
            thread._controlled = task
            original = thread.run
            thread.run = lambda: scheduler.body(task, original)
            scheduler.tasks.append(task)
            mine = scheduler.by_thread.pop(_thread.get_ident())
            try:
                real_start(thread)
            finally:
                scheduler.by_thread[_thread.get_ident()] = mine
            scheduler.pause()

        def join(thread, timeout=None):
            task = getattr(thread, '_controlled', None)
            if scheduler.me() is None or task is None:
                return real_join(thread, timeout)
            scheduler.pause(lambda: task.finished)

        def wait(event, timeout=None):
            if scheduler.me() is None:
                return real_wait(event, timeout)
            if timeout is not None:
                scheduler.pause()
                return event.is_set()
            scheduler.pause(event.is_set)
            return True

        threading.Thread.start, threading.Thread.join, threading.Event.wait = start, join, wait

    def uninstall(self):
        threading.Thread.start, threading.Thread.join, threading.Event.wait = self.saved

    # -- controller

    def run(self, function):
        """Run function under the schedule; raises what it raised. Violation on deadlock."""
        main = Task(0)
        self.tasks.append(main)
        self.install()
        threads = []
        try:
            _thread.start_new_thread(self.body, (main, function))
            current = 0
            steps = 0
            while True:
                options = [t.ident for t in self.tasks if not t.finished and not t.stuck and (t.ready is None or t.ready())]
                self.maximum = max(self.maximum, sum(1 for t in self.tasks if not t.finished))
                if main.finished:
                    break
                if not options:
                    stuck = [t for t in self.tasks if t.stuck and not t.finished]
                    if stuck and self.control.acquire(timeout=2):
                        for t in stuck:
                            t.stuck = False
                        continue
                    raise Violation('deadlock: no thread can go on; schedule %s' % self.summary())
                if len(options) > 1:
                    index = len(self.decisions)
                    if index < len(self.prefix):
                        choice = self.prefix[index]
                        if choice not in options:
                            # some instruction executed differently than in the schedule this one was derived from
                            self.diverged += 1
                            choice = current if current in options else options[0]
                    else:
                        choice = current if current in options else options[0]
                    self.decisions.append((options, choice, current in options, current))
                else:
                    choice = options[0]
                current = choice
                steps += 1
                if steps > self.limit:
                    raise Violation('execution does not end: more than %d steps' % self.limit)
                task = self.tasks[choice]
                task.go.release()
                if not self.control.acquire(timeout=5):
                    task.stuck = True
            self.left = sum(1 for t in self.tasks if not t.finished)
            if main.error is not None:
                raise main.error
            return self
        finally:
            self.drain()
            self.uninstall()

    def drain(self):
        """Let every remaining thread run to its end (in order), so that nothing is left running."""
        for _ in range(200000):
            rest = [t for t in self.tasks if not t.finished]
            options = [t for t in rest if t.ready is None or t.ready()]
            if not rest:
                return
            if not options:
                self.abandoned = True
                options = rest
            options[0].go.release()
            if not self.control.acquire(timeout=5):
                return

    def summary(self):
        return [c for o, c, p, k in self.decisions]


def explore(make, files, bound, opcodes=False, first=None, limit=None):
    """make() returns (function, check); check(scheduler) is called after each execution. Enumerates all schedules with at
    most `bound` preemptions. first=(i, n): only those whose first deviation is the i-th modulo n. Returns (executions, decisions, diverged)."""
    for _ in range(3 if opcodes else 0):
        function, check = make()            # the interpreter specialises instructions during the first calls
        Scheduler([], files, opcodes).run(function)
    stack = [([], 0)]
    executions = decisions = diverged = 0
    while stack:
        prefix, used = stack.pop()
        function, check = make()
        scheduler = Scheduler(prefix, files, opcodes)
        scheduler.run(function)
        check(scheduler)
        executions += 1
        diverged += scheduler.diverged
        decisions += len(scheduler.decisions)
        number = 0
        for i in range(len(prefix), len(scheduler.decisions)):
            options, chosen, could_continue, current = scheduler.decisions[i]
            for option in options:
                if option == chosen:
                    continue
                cost = used + (1 if could_continue else 0)
                if cost > bound:
                    continue
                number += 1
                if not prefix and first is not None and number % first[1] != first[0]:
                    continue
                stack.append(([d[1] for d in scheduler.decisions[:i]] + [option], cost))
        if limit and executions >= limit:
            break
    return executions, decisions, diverged
