"""Deterministic scheduling of caller threads: real threads, one of which runs at any moment.

Every thread parks on its own gate; control is handed over only at line (or bytecode) events of
library code, to the thread the simulator picks. Locks that library code creates are simulated, so
that waiting for a lock is a scheduling decision too."""

import dis
import functools
import gc
import numbers
import sys
import threading
import types

from sim.core import REPO, SimBudget, SimUnsupported, Violation
from sim.session import interrupt_exception
from sim.shield import shielded

PREFIX = REPO + "/abcvoting"
_real_lock, _real_rlock = threading.Lock, threading.RLock
_current = {"scheduler": None}


TOOL = 3


@functools.lru_cache(maxsize=None)
def library_code():
    """all code objects of the library"""
    found, todo = {}, []
    for obj in gc.get_objects():
        code = getattr(obj, "__code__", None) if isinstance(obj, types.FunctionType) else None
        if code is not None and code.co_filename.startswith(PREFIX):
            todo.append(code)
    while todo:
        code = todo.pop()
        if id(code) not in found:
            found[id(code)] = code
            todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
    return list(found.values())


PLAIN = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, int, float, str, bytes,
         tuple, frozenset, type(None), numbers.Number)  # fmt: skip


@functools.lru_cache(maxsize=None)
def hot_lines():
    """(code, line) pairs at which state that outlives a call may be used: module-level objects that
    can be modified, globals and attributes that are assigned. Only used to aim hand-overs."""
    modules = {getattr(mod, "__file__", None): mod for mod in list(sys.modules.values())}
    hot = set()
    for code in library_code():
        space = vars(modules.get(code.co_filename, types))
        line, previous = code.co_firstlineno, None
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno or line
            found = ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")
            if ins.opname in ("STORE_ATTR", "DELETE_ATTR"):
                found = code.co_name != "__init__"
            elif ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                previous = space.get(ins.argval)
                found = not isinstance(previous, PLAIN)
            elif ins.opname == "LOAD_ATTR" and isinstance(previous, types.ModuleType):
                if str(getattr(previous, "__file__", "")).startswith(PREFIX):
                    previous = getattr(previous, ins.argval, None)
                    found = not isinstance(previous, PLAIN)
            if found:
                hot.add((code, line))
    return hot


class SimLock:
    """threading.Lock / RLock for library code under the scheduler"""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            scheduler = _current["scheduler"]
            if not blocking or timeout == 0:
                return False
            if scheduler is None:
                raise Violation("deadlock", "a single thread waits for a lock that is never released")
            if not scheduler.blocked(self) and timeout > 0:
                return False
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


def install_locks():
    """threading.Lock/RLock called from library code give simulated locks (before importing it)"""

    def maker(real, reentrant):
        def make(*args, **kwargs):
            caller = sys._getframe(1).f_code.co_filename
            return SimLock(reentrant) if caller.startswith(PREFIX) else real(*args, **kwargs)

        return make

    threading.Lock = maker(_real_lock, False)
    threading.RLock = maker(_real_rlock, True)


class Task:
    def __init__(self, number, call, bomb=None):
        self.number, self.call, self.bomb = number, call, bomb
        self.gate = _real_lock()
        self.gate.acquire()
        self.result, self.error, self.done = None, None, False
        self.waiting = None  # the lock it waits for
        self.events, self.fired = 0, None
        self.seen = set()
        self.thread = None
        self.where = ("start", "")


class Scheduler:
    """runs tasks (callables) in threads; every hand-over is drawn from ctx"""

    def __init__(self, ctx, mean, opcodes=False, max_switches=600, fresh=False, hot=False):
        """fresh: only the first execution of a line (bytecode) in each thread counts; hot: only lines
        where state that outlives a call may be used count"""
        self.hot = hot_lines() if hot else None
        self.ctx, self.mean, self.opcodes, self.fresh = ctx, max(1, int(mean)), opcodes, fresh
        self.left = max_switches
        self.tasks, self.active, self.offsets = [], None, {}
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.quantum = 0
        self.path = []
        self.switches = 0
        self.stuck = False
        self.observer, self.every, self.seen_wrong, self.observing, self.looks = None, 0, None, False, 0

    def observe(self, observer, every):
        """observer() is what a further thread does that only looks at shared data: it gets a turn at
        every decision and after every `every` events, and returns a message if it sees wrong data"""
        self.observer, self.every = observer, every

    # ---- called by the harness
    def run(self, calls):
        """calls: list of (callable, bomb or None); returns the finished tasks"""
        self.tasks = [Task(i, call, bomb) for i, (call, bomb) in enumerate(calls)]
        for task in self.tasks:
            task.thread = threading.Thread(target=self._body, args=(task,), daemon=True)
            task.thread.start()
        _current["scheduler"] = self
        self._instrument(True)
        try:
            self._resume(self.tasks[self.ctx.pick("first", len(self.tasks))])
            self.main_gate.acquire()
        finally:
            _current["scheduler"] = None
        if self.stuck:
            raise Violation("deadlock", "all threads wait for locks")
        self._instrument(False)
        for task in self.tasks:
            task.thread.join()
        if self.seen_wrong is not None:
            raise Violation("wrong-view", f"another thread sees {self.seen_wrong}")
        for task in self.tasks:
            if isinstance(task.error, (SimUnsupported, SimBudget, Violation)):
                raise task.error
        return self.tasks

    # ---- inside the threads
    def _body(self, task):
        task.gate.acquire()
        try:
            task.result = task.call()
        except BaseException as e:  # pylint: disable=broad-except
            task.error = e
        finally:
            task.done = True
        self._next(task)

    def _on_line(self, code, line):
        if self.hot is not None:
            if (code, line) not in self.hot:
                return
        task = self.active
        if task is not None and not self.observing and threading.get_ident() == task.thread.ident:
            self._event(task, sys._getframe(1), (code, line))

    def _on_instruction(self, code, offset):
        if self.hot is not None and offset not in self._hot_offsets(code):
            return
        task = self.active
        if task is not None and not self.observing and threading.get_ident() == task.thread.ident:
            self._event(task, sys._getframe(1), (code, offset))

    def _hot_offsets(self, code):
        found = self.offsets.get(code)
        if found is None:
            found = set()
            for start, end, line in code.co_lines():
                if (code, line) in self.hot:
                    found.update(range(start, end, 2))
            self.offsets[code] = found
        return found

    def _instrument(self, on):
        """events of library code only; set before the threads start and cleared after they ended
        (changing the instrumentation of running code crashes CPython 3.12)"""
        mon = sys.monitoring
        wanted = 0
        if on:
            mon.use_tool_id(TOOL, "sim.sched")
            wanted = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
            mon.register_callback(TOOL, mon.events.LINE, self._on_line)
            mon.register_callback(TOOL, mon.events.INSTRUCTION, self._on_instruction)
        hot = {code for code, _ in self.hot} if self.hot is not None else None
        for code in library_code():
            if hot is not None and code not in hot:
                continue
            mon.set_local_events(TOOL, code, wanted)
        if not on:
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
            mon.free_tool_id(TOOL)

    def _event(self, task, frame, place):
        if self.fresh:
            if place in task.seen and not self._due(task):
                return
            task.seen.add(place)
        task.events += 1
        if task.bomb and task.fired is None and task.events >= task.bomb["at"] and not shielded(frame, PREFIX):
            task.fired = (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_code.co_name)
            raise interrupt_exception(task.bomb["kind"])
        self.quantum -= 1
        if self.every and task.events % self.every == 0:
            self._look(frame)
        if self.quantum > 0 or self.left <= 0:
            return
        self._look(frame)
        task.where = (frame.f_code.co_name, frame.f_lineno)
        self._handover(task)

    def _look(self, frame):
        if self.observer is None or self.seen_wrong is not None:
            return
        self.observing = True
        self.looks += 1
        try:
            wrong = self.observer()
        finally:
            self.observing = False
        if wrong:
            self.seen_wrong = f"{wrong} while {frame.f_code.co_name} (line {frame.f_lineno}) was running"
            self.every = 0

    def _due(self, task):
        """an exception that is to be thrown as soon as the code is not cleaning up"""
        return task.bomb and task.fired is None and task.events >= task.bomb["at"]

    def _runnable(self, first=None):
        ready = [t for t in self.tasks if not t.done and (t.waiting is None or t.waiting.owner is None)]
        if first is not None and first in ready:
            ready.remove(first)
            ready.insert(0, first)
        return ready

    def _handover(self, task):
        """let the simulator decide who runs now; returns when `task` runs again"""
        ready = self._runnable(task)
        chosen = ready[self.ctx.pick("thread", len(ready))]
        self._draw()
        if chosen is task:
            return
        self._note(task, chosen)
        self._resume(chosen)
        task.gate.acquire()

    def _draw(self):
        """lines until the next decision; 0 stands for 'no further decision'"""
        self.left -= 1
        span = 2 * self.mean
        q = self.ctx.pick("quantum", span * (1 + 800 // span))
        self.quantum = 1 + q % span if q else 10**9

    def _note(self, task, chosen):
        self.switches += 1
        self.path.append((task.number, chosen.number, task.where))
        self.ctx.log("switch", task.number, chosen.number, task.where)
        self.ctx.state("switch", task.where[0], chosen.where[0])

    def _resume(self, task):
        self.active = task
        if not self.quantum:
            self._draw()
        task.gate.release()

    def _next(self, task):
        """`task` has finished"""
        ready = self._runnable()
        if ready:
            chosen = ready[self.ctx.pick("after", len(ready))]
            self._note(task, chosen)
            self._draw()
            self._resume(chosen)
            return
        self.stuck = any(not t.done for t in self.tasks)
        self.main_gate.release()

    def blocked(self, lock):
        """the active task waits for `lock`; False if it cannot ever get it"""
        task = self.active
        if threading.current_thread() is not task.thread:
            return False
        task.waiting = lock
        self.ctx.count("lock_waits")
        ready = self._runnable()
        if not ready:
            self.stuck = True
            self.main_gate.release()
            task.gate.acquire()  # for ever
        chosen = ready[self.ctx.pick("after", len(ready))]
        self._note(task, chosen)
        self._draw()
        self._resume(chosen)
        task.gate.acquire()
        task.waiting = None
        return True
