"""A controlled scheduler for two operations on real threads.

Each operation runs in a thread of its own, of which exactly one runs at a time; a thread given a
stop at line k hands over just before executing the k-th source line of scheme it reaches.  A
thread waiting for a lock held by the stopped one is noticed by a timeout and resumed later."""

import sys
import threading
import time

from mc.core import REPO, Violation

PATIENCE = 1.0
FOREVER = 30.0

class Thread(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.go, self.back = threading.Lock(), threading.Lock()
        self.go.acquire()
        self.back.acquire()
        self.operation = self.stop = None
        self.lines, self.done, self.blocked = 0, True, False
        self.thread = threading.Thread(target=self.loop)
        self.thread.daemon = True
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            if self.operation is None:
                return
            operation = self.operation
            if self.stop is not None:
                sys.settrace(self.trace)
            try:
                self.result = operation()
            except BaseException as exception:
                self.result = exception
            finally:
                sys.settrace(None)
            self.operation = None
            self.done = True
            self.back.release()

    def trace(self, frame, event, argument):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.line

    def line(self, frame, event, argument):
        if event == 'line':
            if self.lines == self.stop:
                self.lines += 1
                # nothing more is to be noticed
                sys.settrace(None)
                self.back.release()
                self.go.acquire()
                return None
            else:
                self.lines += 1
                if self.stop == -1:
                    self.places.append((frame.f_code, frame.f_lineno))
        return self.line

    def start(self, operation, stop=None):
        """Runs ``operation`` up to its line ``stop`` (to its end if None; -1 counts lines)."""
        self.operation, self.stop, self.lines, self.done = operation, stop, 0, False
        self.result, self.places = None, []
        return self.resume()

    def resume(self):
        self.go.release()
        return self.wait(PATIENCE)

    def wait(self, timeout):
        self.blocked = not self.back.acquire(timeout=timeout)
        return self.done

class Scheduler(object):
    def __init__(self):
        self.prefix = REPO.rstrip('/') + '/'
        self.first, self.second = Thread(self.prefix), Thread(self.prefix)

    def count(self, operation):
        """The source lines of scheme ``operation`` executes, and its result."""
        self.first.start(operation, -1)
        self.finish(self.first)
        return self.first.places, self.first.result

    def finish(self, thread):
        deadline = time.time() + FOREVER
        while not thread.done:
            if thread.blocked:
                thread.wait(PATIENCE)
            else:
                thread.resume()
            if time.time() > deadline:
                raise Violation('an operation never ends: deadlock')

    def run(self, a, b, stop, other=None):
        """Results of ``a`` interrupted before its line ``stop`` by ``b``, which runs to its end or,
        with ``other``, is interrupted in turn before its line ``other`` by the rest of ``a``."""
        first, second = self.first, self.second
        first.start(a, stop)
        second.start(b, other)
        if not second.done and not second.blocked:
            # both are interrupted: the first goes on to its end
            if not first.done and not first.blocked:
                first.resume()
            if first.blocked:
                # waiting for the second
                self.finish(second)
        self.finish(first)
        self.finish(second)
        return first.result, second.result

class Snapshot(object):
    """The mutable state of the modules and classes of scheme, to be restored between runs."""
    SKIP = ('__dict__', '__weakref__', '__doc__', '__builtins__', '__abstractmethods__')

    def __init__(self):
        self.spaces, self.contents = [], {}
        seen = set()
        for name, module in sorted(sys.modules.items()):
            if (name == 'scheme' or name.startswith('scheme.')) and module is not None:
                self.add(module, seen)
                for value in list(vars(module).values()):
                    if isinstance(value, type) and str(value.__module__).startswith('scheme'):
                        self.add(value, seen)

    def add(self, space, seen):
        if id(space) in seen:
            return
        seen.add(id(space))
        saved = dict((k, v) for k, v in vars(space).items() if k not in self.SKIP)
        self.spaces.append((space, saved))
        for value in saved.values():
            self.keep(value)
            function = getattr(value, '__func__', value)
            for default in getattr(function, '__defaults__', None) or ():
                self.keep(default)
            for cell in getattr(function, '__closure__', None) or ():
                try:
                    self.keep(cell.cell_contents)
                except ValueError:
                    pass

    def keep(self, value):
        if type(value) in (dict, list, set):
            self.contents[id(value)] = (value, value.copy())

    def restore(self):
        for space, saved in self.spaces:
            current = vars(space)
            for name in list(current):
                if name not in saved and name not in self.SKIP:
                    delattr(space, name)
            for name, value in saved.items():
                if current.get(name, self) is not value:
                    setattr(space, name, value)
        for value, saved in self.contents.values():
            if value != saved:
                if type(value) is list:
                    value[:] = saved
                else:
                    value.clear()
                    value.update(saved)
