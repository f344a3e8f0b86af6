"""Fault injection and the deterministic thread scheduler.

Both use the interpreter's own trace hook as the seam, restricted to source files of
the package under test: nothing in the repository is edited.
"""
import random
import sys
import threading

from .core import SRC


class InjectedCrash(BaseException):
    """Stands for the death of the process: nothing in the system under test may survive it."""


def _exc(kind):
    import numpy as np
    return {
        "MemoryError": lambda: MemoryError("injected"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
        "FloatingPointError": lambda: FloatingPointError("injected"),
        "LinAlgError": lambda: np.linalg.LinAlgError("injected"),
        "RuntimeError": lambda: RuntimeError("injected"),
        "OSError": lambda: OSError(28, "injected"),
        "Crash": lambda: InjectedCrash("injected"),
    }[kind]()


EXC_KINDS = ["MemoryError", "KeyboardInterrupt", "FloatingPointError", "LinAlgError", "RuntimeError", "OSError"]


class Tracer:
    """Counts line events inside the package; raises `exc` at event number `target`."""

    def __init__(self, target=None, exc=None, limit=None):
        self.n, self.target, self.exc, self.limit = 0, target, exc, limit
        self.fired = None
        self.over = False

    def _global(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(SRC):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.target:
                self.fired = (frame.f_code.co_filename[len(SRC) + 1:], frame.f_code.co_name, frame.f_lineno)
                raise _exc(self.exc)
            if self.limit is not None and self.n > self.limit:
                self.over = True
                raise StepBudgetExceeded(self.n)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class StepBudgetExceeded(BaseException):
    pass


class Sched:
    """Real threads, one runnable at a time; a seeded generator decides every switch.

    Threads yield at every source line (or bytecode, `opcodes=True`) of the package.
    """

    def __init__(self, seed, p_switch=0.3, opcodes=False, max_switches=20000):
        self.rng = random.Random(seed)
        self.p = p_switch
        self.opcodes = opcodes
        self.max_switches = max_switches
        self.cv = threading.Condition()
        self.alive, self.current = [], None
        self.switches = 0
        self.yields = 0
        self.order = []
        self.stalled = 0
        self.progress = 0

    def prepare(self, fn):
        """Run fn once under bytecode tracing, alone. The interpreter instruments a function for bytecode events only after
        its first traced execution, so without this the first run in a process would offer fewer switch points than later ones."""
        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(SRC):
                frame.f_trace_opcodes = True
                return lambda *a: None
            return None
        sys.settrace(glob)
        try:
            fn()
        except Exception:  # noqa: BLE001
            pass
        finally:
            sys.settrace(None)

    def run(self, fns):
        res = [None] * len(fns)
        threads = []
        self.alive = list(range(len(fns)))

        def body(i):
            with self.cv:
                while self.current != i:
                    self.cv.wait()
            sys.settrace(self._make(i))
            try:
                res[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: BLE001
                res[i] = ("exc", e)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.remove(i)
                    if self.current == i:
                        self.current = self.rng.choice(self.alive) if self.alive else None
                    self.progress += 1
                    self.cv.notify_all()

        for i in range(len(fns)):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            threads.append(t)
            t.start()
        with self.cv:
            self.current = self.rng.choice(self.alive)
            self.cv.notify_all()
            last = -1
            idle = 0
            while self.alive:
                self.cv.wait(timeout=1.0)
                if self.progress == last:
                    idle += 1
                    if idle >= 10 and len(self.alive) > 1:
                        # the running thread is blocked on something a parked one holds
                        self.stalled += 1
                        others = [a for a in self.alive if a != self.current]
                        self.current = others[0]
                        self.cv.notify_all()
                        idle = 0
                else:
                    last, idle = self.progress, 0
        for t in threads:
            t.join(5)
        return res

    def _make(self, i):
        def local(frame, event, arg):
            if event == "line" or (self.opcodes and event == "opcode"):
                self._yield(i)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(SRC):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def _yield(self, i):
        with self.cv:
            self.progress += 1
            self.yields += 1
            if self.current == i and (self.switches >= self.max_switches or self.rng.random() >= self.p):
                return
            if self.current == i:
                nxt = self.rng.choice(self.alive)
                self.current = nxt
                if nxt != i:
                    self.switches += 1
                    self.order.append(nxt)
                self.cv.notify_all()
            while self.current != i:
                self.cv.wait()


class SimDisk:
    """Files with a durable and a volatile image; crash keeps durable data, may tear volatile writes."""

    def __init__(self):
        self.durable, self.volatile = {}, {}

    def write(self, name, data):
        self.volatile[name] = data

    def fsync(self, name):
        if name in self.volatile:
            self.durable[name] = self.volatile.pop(name)

    def rename(self, a, b):
        if a in self.durable:
            self.durable[b] = self.durable.pop(a)

    def crash(self, frac):
        """Un-synced writes survive as a prefix (torn), possibly empty."""
        torn = 0
        for n, d in self.volatile.items():
            k = int(len(d) * frac)
            if k:
                self.durable[n] = d[:k]
                torn += 1
        self.volatile = {}
        return torn
