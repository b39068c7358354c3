"""Cooperative scheduler: real threads, one of which runs at a time.

Which one is decided by the case's random generator at every executed source
line of the modules under test (``sys.settrace``) and whenever a thread has to
wait.  The locks, threads and events of the modules under test are replaced by
stand-ins that know the scheduler, so a schedule can be replayed and a deadlock
is noticed instead of hanging.
"""
import contextlib
import os
import sys
import threading
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.realpath(os.path.join(REPO, "ros_bt_py", "ros_bt_py"))
SCOPE = ("tree_exec_manager.py", "tree_edit_manager.py", "subtree_manager.py", "debug_manager.py", "data_flow_manager.py",
         "logging_manager.py", "package_manager.py", "node.py", "topic.py", "service.py", "action.py")


class Abort(BaseException):
    """Unwinds a task after the run was given up."""


class Task:
    def __init__(self, sched, fn, name):
        self.sched, self.fn, self.name = sched, fn, name
        self.sem = threading.Semaphore(0)
        self.wait = None  # runnable only once this returns true
        self.timed = False  # may give up waiting
        self.timed_out = False
        self.started = self.finished = False
        self.error = None
        self.real = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            if not self.sched.aborted:
                sys.settrace(self.sched.trace)
                self.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa: B036
            self.error = e
        finally:
            sys.settrace(None)
            self.finished = True
            self.sched.task_done(self)


class Sched:
    def __init__(self, rng, p_switch=0.1, scope=SCOPE, max_points=400000, p_timeout=0.002):
        self.rng, self.p, self.p_timeout = rng, p_switch, p_timeout
        self.files = {os.path.join(ROOT, d, f) for f in scope for d in ("", "nodes", "ros_nodes")}
        self.tasks, self.current = [], None
        self.aborted, self.reason = False, None
        self.points = self.switches = self.timeouts = 0
        self.max_points = max_points
        self.main = threading.Semaphore(0)
        self.history = 0

    # ---- tracing
    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    # ---- scheduling
    def me(self):
        t = self.current
        return t if t is not None and t.real is threading.current_thread() else None

    def point(self, force=False):
        """The running task may be interrupted here."""
        if self.me() is None:
            return
        if self.aborted:
            raise Abort()
        self.points += 1
        if self.points > self.max_points:
            self.give_up("no progress")
        if force or self.rng.random() < self.p:
            self.switch()

    def runnable(self):
        return [t for t in self.tasks if t.started and not t.finished and (t.wait is None or t.wait())]

    def switch(self):
        me = self.me()
        ready = self.runnable()
        timed = [t for t in self.tasks if t.started and not t.finished and t not in ready and t.timed]
        if timed and (not ready or self.rng.random() < self.p_timeout):
            t = self.rng.choice(timed)
            t.timed_out = True
            self.timeouts += 1
            ready = [t]
        if not ready:
            if all(t.finished for t in self.tasks):
                self.main.release()
                return
            self.give_up("deadlock: " + ", ".join(f"{t.name} waits" for t in self.tasks if not t.finished))
        nxt = self.rng.choice(ready)
        if nxt is me:
            return
        self.switches += 1
        self.history = (self.history * 31 + self.tasks.index(nxt) + 1) % (1 << 61)
        self.current = nxt
        nxt.sem.release()
        if me is not None and not me.finished:
            me.sem.acquire()
            if self.aborted:
                raise Abort()

    def block(self, pred, timed=False):
        """Wait until pred() (True) or, if timed, until time is up (False)."""
        me = self.me()
        if me is None:
            if not pred():
                raise RuntimeError("blocking outside of the schedule")
            return True
        while not pred():
            me.wait, me.timed, me.timed_out = pred, timed, False
            try:
                self.switch()
            finally:
                me.wait, me.timed = None, False
            if me.timed_out:
                me.timed_out = False
                return pred()
        return True

    def task_done(self, task):
        if self.aborted:
            return
        try:
            self.switch()
        except Abort:
            pass

    def give_up(self, reason):
        self.aborted, self.reason = True, reason
        for t in self.tasks:
            t.sem.release()
        self.main.release()
        raise Abort()

    def spawn(self, fn, name, start=True):
        t = Task(self, fn, name)
        t.real.start()
        t.started = start
        self.tasks.append(t)
        return t

    def run(self):
        """Run until every task has finished."""
        ready = self.runnable()
        self.current = self.rng.choice(ready)
        self.current.sem.release()
        self.main.acquire()
        if self.aborted:
            for t in self.tasks:
                t.sem.release()
        for t in self.tasks:
            t.real.join(10)
        self.current = None

    def stop_all(self):
        """Unwind whatever is left."""
        if not self.aborted:
            self.aborted = True
        for t in self.tasks:
            if not t.finished:
                t.sem.release()
        for t in self.tasks:
            t.real.join(10)

    # ---- stand-ins
    def classes(self):
        sched = self

        class Lock:
            reentrant = False

            def __init__(self):
                self.owner, self.depth = None, 0

            def _id(self):
                return sched.me() or threading.current_thread()

            def acquire(self, blocking=True, timeout=-1):
                i = self._id()
                if self.reentrant and self.owner is i:
                    self.depth += 1
                    return True
                if self.owner is not None:
                    if not blocking:
                        return False
                    if not sched.block(lambda: self.owner is None, timed=timeout is not None and timeout >= 0):
                        return False
                self.owner, self.depth = i, 1
                return True

            def release(self):
                if self.owner is None or (self.reentrant and self.owner is not self._id()):
                    raise RuntimeError("release unlocked lock")
                self.depth -= 1
                if self.depth == 0:
                    self.owner = None

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        class RLock(Lock):
            reentrant = True

        class Event:
            def __init__(self):
                self.flag = False

            def set(self):
                self.flag = True

            def clear(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def wait(self, timeout=None):
                return sched.block(lambda: self.flag, timed=timeout is not None)

        class Thread:
            count = 0

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._target, self._args, self._kw = target, args, kwargs or {}
                Thread.count += 1
                self.name = name or f"thread-{Thread.count}"
                self.daemon = daemon
                self.task = None

            def run(self):
                if self._target is not None:
                    self._target(*self._args, **self._kw)

            def start(self):
                if self.task is not None:
                    raise RuntimeError("threads can only be started once")
                self.task = sched.spawn(self.run, self.name)
                sched.threads.append(self.task)

            @property
            def ident(self):
                return None if self.task is None else id(self.task)

            def is_alive(self):
                return self.task is not None and not self.task.finished

            def join(self, timeout=None):
                if self.task is None:
                    raise RuntimeError("cannot join thread before it is started")
                if self.task is sched.me():
                    raise RuntimeError("cannot join current thread")
                sched.block(lambda: self.task.finished, timed=timeout is not None)

        return {"Lock": Lock, "RLock": RLock, "Event": Event, "Thread": Thread}

    @contextlib.contextmanager
    def installed(self):
        """Replace the threading primitives of every module under test."""
        self.threads = []
        sub = self.classes()
        real = {getattr(threading, k): v for k, v in sub.items()}
        proxy = types.SimpleNamespace(**{k: getattr(threading, k) for k in dir(threading)})
        for k, v in sub.items():
            setattr(proxy, k, v)
        undo = []
        for name, mod in list(sys.modules.items()):
            if not (name == "ros_bt_py" or name.startswith("ros_bt_py.")) or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                new = None
                if v is threading:
                    new = proxy
                elif isinstance(v, (type, types.BuiltinFunctionType, types.FunctionType)):
                    try:
                        new = real.get(v)
                    except TypeError:
                        pass
                    if new is None and v is __import__("rclpy.utilities", fromlist=["ok"]).ok:
                        new = lambda *a, **k: not self.aborted  # noqa: E731
                if new is not None:
                    undo.append((mod, k, v))
                    setattr(mod, k, new)
        try:
            yield self
        finally:
            for mod, k, v in undo:
                setattr(mod, k, v)
            self.stop_all()
