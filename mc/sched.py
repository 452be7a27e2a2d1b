"""Controlled scheduler: the multiprocessing primitives used by the batch runner, replaced by stand-ins whose
every operation is a scheduling point, so that all interleavings can be enumerated.

Each 'process' is a thread that runs only while it holds the baton.  `Explorer` walks the complete graph of
scheduler states (stateless re-execution, pruning at states already expanded).
"""
import queue as _queue
import threading
import _thread

import multiprocessing
from multiprocessing import process as mp_process


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


CUR = None     # the scheduler of the running execution


class Baton:
    """A binary semaphore (faster than threading.Semaphore)."""

    def __init__(self):
        self.l = _thread.allocate_lock()
        self.l.acquire()
        self.acquire = self.l.acquire

    def release(self):
        try:
            self.l.release()
        except RuntimeError:
            pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = Baton()
        self.pending = ("begin",)
        self.enabled = lambda: True
        self.steps = 0
        self.facts = ()
        self.done = False
        self.error = None
        self.buffer = []
        self.exit_ok = lambda: True


class Scheduler:
    def __init__(self, capacity, fine=True):
        self.fine = fine           # is putting a message a scheduling point of its own?
        self.tasks = []
        self.parked = Baton()
        self.local = threading.local()
        self.abort = False
        self.capacity = capacity
        self.objects = []

    # ---- called by tasks
    def me(self):
        return getattr(self.local, "task", None)

    def point(self, op, enabled=None):
        t = self.me()
        if t is None:
            return
        if self.abort:
            raise Abort()
        t.pending = op
        t.enabled = enabled or (lambda: True)
        self.parked.release()
        t.go.acquire()
        if self.abort:
            raise Abort()
        t.steps += 1

    def spawn(self, name, fn):
        t = Task(name, fn)

        def body():
            self.local.task = t
            t.go.acquire()
            try:
                if not self.abort:
                    fn()
            except Abort:
                pass
            except BaseException as e:  # noqa
                t.error = e
            try:
                if not self.abort:
                    # a process ends only once its messages are in the pipe
                    self.point(("exit",), lambda: not t.buffer and t.exit_ok())
            except Abort:
                pass
            t.done = True
            t.pending = None
            self.parked.release()
        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        self.tasks.append(t)
        return t


# ------------------------------------------------------------------ stand-ins
class Semaphore:
    def __init__(self, value=1, **k):
        self.value = self.initial = int(value)
        CUR.objects.append(self)

    def acquire(self, block=True, timeout=None):
        if not block or timeout is not None:
            CUR.point(("acquire?",))
            if self.value > 0:
                self.value -= 1
                return True
            return False
        CUR.point(("acquire",), lambda: self.value > 0)
        self.value -= 1
        return True

    def release(self):
        CUR.point(("release",))
        self.value += 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def sig(self):
        return ("s", self.value)


class Event:
    def __init__(self):
        self.flag = False
        CUR.objects.append(self)

    def set(self):
        CUR.point(("set",))
        self.flag = True

    def clear(self):
        CUR.point(("clear",))
        self.flag = False

    def is_set(self):
        CUR.point(("is_set",))
        return self.flag

    def wait(self, timeout=None):
        CUR.point(("wait",), (lambda: self.flag) if timeout is None else None)
        return self.flag

    def sig(self):
        return ("e", self.flag)


def key(msg):
    try:
        return repr(sorted(msg.items()))
    except AttributeError:
        return repr(msg)


class Queue:
    """A pipe of bounded capacity; what does not fit waits in the sender, which cannot exit meanwhile."""

    def __init__(self, maxsize=0, **k):
        self.pipe = []
        self.waiting = []          # (task, message) not yet in the pipe
        self.maxsize = maxsize
        CUR.objects.append(self)

    def _flush(self):
        while self.waiting and len(self.pipe) < CUR.capacity:
            t, m = self.waiting.pop(0)
            if t is not None:
                t.buffer.remove(id(m))
            self.pipe.append(m)

    def put(self, m, block=True, timeout=None):
        if CUR.fine:
            CUR.point(("put",))
        t = CUR.me()
        if t is not None:
            t.buffer.append(id(m))
        self.waiting.append((t, m))
        self._flush()

    def put_nowait(self, m):
        self.put(m)

    def empty(self):
        CUR.point(("empty",))
        return not self.pipe

    def qsize(self):
        CUR.point(("qsize",))
        return len(self.pipe)

    def get(self, block=True, timeout=None):
        CUR.point(("get",), (lambda: bool(self.pipe)) if block and timeout is None else None)
        if not self.pipe:
            raise _queue.Empty()
        m = self.pipe.pop(0)
        self._flush()
        t = CUR.me()
        if t is not None:
            t.facts = tuple(sorted(t.facts + (key(m),)))
        return m

    def get_nowait(self):
        return self.get(block=False)

    def close(self):
        pass

    join_thread = cancel_join_thread = close

    def sig(self):
        return ("q", tuple(sorted(key(m) for m in self.pipe)), tuple(sorted(key(m) for _, m in self.waiting)))


def _start(self):
    CUR.point(("start",))
    if getattr(self, "_mc_task", None) is not None:
        raise AssertionError("cannot start a process twice")
    n = len(CUR.tasks) - 1
    self._mc_task = CUR.spawn("job%d" % n, self.run)
    CUR.started.append(self)
    t = CUR.me()
    if t is not None:
        t.facts = tuple(sorted(t.facts + ("started%d" % n,)))


def _join(self, timeout=None):
    t = self._mc_task
    CUR.point(("join", t.name), (lambda: t.done) if timeout is None else None)
    me = CUR.me()
    if t.done and me is not None:
        f = "joined" + t.name
        if f not in me.facts:
            me.facts = tuple(sorted(me.facts + (f,)))


def _alive(self):
    t = getattr(self, "_mc_task", None)
    CUR.point(("alive",))
    return t is not None and not t.done


def _exitcode(self):
    t = getattr(self, "_mc_task", None)
    if t is None or not t.done:
        return None
    return 0 if t.error is None else 1


_installed = False


def install():
    """Replace the primitives (once per process, before the batch runner is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    B = mp_process.BaseProcess
    def either(mine, real):
        # outside a controlled execution (the worker pool) processes are real
        return lambda self, *a, **k: (real if CUR is None else mine)(self, *a, **k)
    code = B.exitcode.fget
    kill = lambda self: CUR.point(("kill",))  # noqa
    B.start, B.join, B.is_alive = either(_start, B.start), either(_join, B.join), either(_alive, B.is_alive)
    B.exitcode = property(either(_exitcode, code))
    B.terminate, B.kill = either(kill, B.terminate), either(kill, B.kill)
    B.close = either(lambda self: None, B.close)
    multiprocessing.Semaphore = multiprocessing.BoundedSemaphore = Semaphore
    multiprocessing.Lock = multiprocessing.RLock = lambda: Semaphore(1)
    multiprocessing.Event = Event
    multiprocessing.Queue = multiprocessing.SimpleQueue = multiprocessing.JoinableQueue = Queue


def sleep(_=0):
    """Time passes: nothing else can happen only if nothing else is possible, so this is a plain point."""
    if CUR is not None:
        CUR.point(("sleep",))


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, main, monitor, capacity=2, max_states=None, fine=True):
        """main(): the parent's code; monitor(sched) -> error or None, evaluated in every state."""
        self.main, self.monitor, self.capacity = main, monitor, capacity
        self.visited = {}
        self.edges = {}
        self.terminal = set()
        self.transitions = self.executions = 0
        self.deadlocks = []
        self.errors = []
        self.max_states = max_states
        self.fine = fine
        self.capped = False

    def sig(self, s):
        return (tuple((t.name, t.pending, t.facts, t.steps if t.name != "main" else 0, t.done) for t in s.tasks),
                tuple(o.sig() for o in s.objects), self.extra())

    extra = staticmethod(lambda: None)

    def run(self, prefix):
        """One execution; returns alternatives found (prefixes to explore)."""
        global CUR
        s = CUR = Scheduler(self.capacity, self.fine)
        s.started = []
        s.spawn("main", self.main)
        self.s = s
        trace, new = [], []
        prev = None
        outcome = None
        t = s.tasks[0]
        t.pending = ("begin",)
        first = True
        while True:
            if first:
                first = False
            live = [x for x in s.tasks if not x.done]
            err = self.monitor(s)
            if err:
                self.errors.append((err, [c for c in trace]))
                outcome = "error"
                break
            if not live:
                g = self.sig(s)
                if prev is not None:
                    self.edges.setdefault(prev[0], set()).add(g)
                self.terminal.add(g)
                outcome = "end"
                break
            en = [i for i, x in enumerate(s.tasks) if not x.done and x.enabled()]
            g = self.sig(s)
            if prev is not None:
                self.edges.setdefault(prev[0], set()).add(g)
            if not en:
                self.deadlocks.append([c for c in trace])
                self.errors.append(("deadlock: " + "; ".join("%s waits in %s" % (x.name, x.pending[0]) for x in live), list(trace)))
                outcome = "deadlock"
                break
            if len(trace) < len(prefix):
                c = prefix[len(trace)]
            else:
                if g in self.visited:
                    outcome = "seen"
                    break
                if self.max_states and len(self.visited) >= self.max_states:
                    self.capped = True
                    outcome = "seen"
                    break
                self.visited[g] = True
                # children first: a parent that polls must not starve them
                order = sorted(en, key=lambda i: (i == 0, i))
                c = order[0]
                for a in order[1:]:
                    new.append(trace + [a])
            trace.append(c)
            prev = (g,)
            self.transitions += 1
            x = s.tasks[c]
            n = len(s.tasks)
            x.go.release()
            s.parked.acquire()       # the task parks again or ends
            if len(trace) > 5000:
                self.errors.append(("execution does not end within 5000 operations", trace[-20:]))
                outcome = "error"
                break
        self.executions += 1
        # unwind
        s.abort = True
        for x in s.tasks:
            while not x.done:
                x.go.release()
                x.thread.join(0.001)
            x.thread.join(5)
        CUR = None
        return outcome, trace, new

    def explore(self, on_end, on_start=None):
        stack = [[]]
        while stack:
            p = stack.pop()
            if on_start:
                on_start()
            outcome, trace, new = self.run(p)
            stack.extend(new)
            if outcome == "end":
                e = on_end(self.s)
                if e:
                    self.errors.append((e, trace))
            if self.errors:
                return
        # every state can still reach the end
        back = {}
        for a, bs in self.edges.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        reach, todo = set(self.terminal), list(self.terminal)
        while todo:
            x = todo.pop()
            for y in back.get(x, ()):
                if y not in reach:
                    reach.add(y)
                    todo.append(y)
        if not self.capped:
            stuck = [g for g in self.visited if g not in reach]
            if stuck:
                self.errors.append(("the batch can reach a situation from which it never ends", [str(t[:2]) for t in stuck[0][0]]))
