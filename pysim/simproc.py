"""The simulated multiprocessing: processes are tasks of a scheduler that runs
one at a time, queues are pipes with a feeder per process, time is simulated.

A task is a thread that only runs while it holds the token. Whoever waits
hands the token on; the seed decides to whom, how far feeders and clock move,
and where a process is killed."""
import hashlib
import io
import os
import pickle
import queue as _q
import sys
import threading
import time
import types

from simfs import SimCrash


class Killed(BaseException):
    pass


class Deadlock(BaseException):
    pass


class Sched(object):
    def __init__(self, rng, mode="random", kills=None, cpus=4, pipe=64, refuse=0, maxsteps=200000):
        self.rng = rng
        self.mode = mode
        self.kills = dict(kills or {})   # process number -> yield number
        self.cpus = cpus
        self.pipe = pipe
        self.refuse = refuse             # the start of this process fails
        self.now = 0.0
        self.tasks = []
        self.queues = []
        self.nproc = 0
        self.steps = 0
        self.maxsteps = maxsteps
        self.h = hashlib.blake2s(digest_size=8)
        self.fired = {}
        self.started = []                # (process, arguments)
        self.running = 0
        self.maxrunning = 0
        self.over = False
        main = Task(self, None, None)
        main.thread = threading.current_thread()
        main.alive = True
        self.tasks.append(main)
        self.cur = main
        self.main = main

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    # -- what can move
    def moves(self):
        out = [t for t in self.tasks if t.alive and (t.cond is None or t.cond())]
        for q in self.queues:
            for p, buf in q.bufs.items():
                if buf and len(q.data) < self.pipe and p not in q.held:
                    out.append((q, p))
        return out

    def pick(self, mv):
        if self.mode == "first":
            return mv[0]
        if self.mode == "parent-first":
            for m in mv:
                if m is self.main:
                    return m if self.rng.random() < 0.95 else self.rng.choice(mv)
        if self.mode == "workers-first":
            w = [m for m in mv if m is not self.main]
            if w and self.rng.random() < 0.95:
                return self.rng.choice(w)
        if self.mode == "feeders-last":
            w = [m for m in mv if isinstance(m, Task)]
            if w and self.rng.random() < 0.97:
                return self.rng.choice(w)
        if self.mode == "starve":
            w = [m for m in mv if not (isinstance(m, Task) and m.num == self.rng_starved)]
            if w and self.rng.random() < 0.98:
                return self.rng.choice(w)
        return self.rng.choice(mv)

    rng_starved = 1

    def next(self):
        """Decides who runs now; moves feeders and clock on the way."""
        while True:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Deadlock("no end after %d steps" % self.maxsteps)
            mv = self.moves()
            if mv:
                m = self.pick(mv)
                if isinstance(m, Task):
                    self.h.update(b"%d," % m.num)
                    return m
                q, p = m
                q.data.append(q.bufs[p].pop(0))
                q.flushed[p] = q.flushed.get(p, 0) + 1
                self.h.update(b"f%d," % p)
                continue
            # nobody: time passes
            wake = [t.until for t in self.tasks if t.alive and t.until is not None and t.until > self.now]
            if not wake:
                raise Deadlock("everybody waits")
            self.now = min(wake)
            self.h.update(b"t")

    def switch(self):
        """The current task waits for the token."""
        me = self.cur
        try:
            n = self.next()
        except Deadlock:
            if me is not self.main:
                self.failed = sys.exc_info()[1]
                n = self.main
                n.cond = n.until = None
                n.raise_ = self.failed
            else:
                raise
        self.give(n)

    def give(self, n):
        me = self.cur
        if n is not me:
            self.cur = n
            n.sem.release()
            me.sem.acquire()
        if me.raise_ is not None:
            e, me.raise_ = me.raise_, None
            raise e

    def point(self):
        """A yield point of the running task."""
        me = self.cur
        if threading.current_thread() is not me.thread:
            raise RuntimeError("a thread the simulator does not know")
        me.yields += 1
        if self.over:
            raise Killed()
        if me is not self.main and self.kills.get(me.num) == me.yields:
            self.count("kill")
            me.exitcode = -9
            raise Killed()
        self.switch()

    def wait(self, cond, timeout=None):
        """Waits until cond() or until the simulated time is over."""
        me = self.cur
        me.yields += 1
        end = None if timeout is None else self.now + max(0.0, timeout)
        me.until = end
        me.cond = lambda: cond() or end is not None and self.now >= end
        try:
            self.switch()
        finally:
            me.cond = me.until = None
        return cond()

    def finish(self, t):
        """The thread of t is about to end."""
        t.alive = False
        try:
            n = self.next()
        except Deadlock as e:
            n = self.main
            n.cond = n.until = None
            n.raise_ = e
        self.cur = n
        n.sem.release()

    def exit(self):
        """What the end of the main process does: daemons are ended, the other
        processes are waited for."""
        for t in list(self.tasks[1:]):
            if t.alive and t.daemon:
                t.raise_, t.exitcode, t.cond, t.until = Killed(), -15, None, None
                self.wait(lambda: not t.alive)
        for t in list(self.tasks[1:]):
            self.wait(lambda: not t.alive)

    def close(self):
        """Ends what is left over."""
        self.over = True
        for t in self.tasks:
            if t is not self.main and t.thread is not None and t.thread.is_alive():
                t.raise_ = Killed()
                self.back = threading.Semaphore(0)
                self.closing = t
                self.cur = t
                t.sem.release()
                t.thread.join(10)
                if t.thread.is_alive():
                    raise RuntimeError("a simulated process does not end")
        self.cur = self.main


class Task(object):
    def __init__(self, s, fn, args):
        self.s, self.fn, self.args = s, fn, args
        self.num = len(s.tasks)
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.alive = False
        self.exitcode = None
        self.cond = None
        self.until = None
        self.yields = 0
        self.raise_ = None
        self.done = False
        self.daemon = False


S = [None]  # the scheduler of the running scenario


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Process"
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = S[0]
        s.nproc += 1
        if s.refuse == s.nproc:
            s.count("fork-refused")
            raise OSError(11, "Resource temporarily unavailable")
        t = Task(s, None, None)
        t.daemon = self.daemon
        self._t = t
        # the child works on its own copy of everything but the queues
        args, kwargs = copy(self._args), copy(self._kwargs)
        child = self
        if self._target is not None:
            s.started.append((t.num, args))

        def main():
            t.sem.acquire()
            try:
                if t.raise_ is not None:
                    raise t.raise_
                if child._target is not None:
                    child._target(*args, **kwargs)
                else:
                    child.run()
                s.point()
                t.exitcode = 0
            except Killed:
                if t.exitcode is None:
                    t.exitcode = -15
            except SystemExit as e:
                t.exitcode = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except SimCrash:
                t.exitcode = -9
            except BaseException:
                t.exitcode = 1
            try:
                if t.exitcode >= 0 and not s.over:  # the feeder empties its buffer first
                    s.wait(lambda: not any(q.bufs.get(t.num) for q in s.queues))
            except Killed:
                t.exitcode = -15
            except BaseException:
                pass
            for q in s.queues:
                q.bufs.pop(t.num, None)
            s.running -= 1
            if s.over:
                t.alive = False
                return
            s.finish(t)
        t.thread = threading.Thread(target=main, daemon=True)
        t.thread.start()
        t.alive = True
        s.tasks.append(t)
        s.running += 1
        s.maxrunning = max(s.maxrunning, s.running)
        s.point()

    def join(self, timeout=None):
        t = self._t
        S[0].wait(lambda: not t.alive, timeout)

    def is_alive(self):
        S[0].point()
        return self._t is not None and self._t.alive

    @property
    def exitcode(self):
        S[0].point()
        return None if self._t is None or self._t.alive else self._t.exitcode

    @property
    def pid(self):
        return None if self._t is None else 1000 + self._t.num

    ident = pid

    @property
    def sentinel(self):
        return self

    def terminate(self):
        t = self._t
        if t is not None and t.alive and t is not S[0].cur:
            t.raise_ = Killed()
            t.exitcode = -15
            t.cond = t.until = None
            S[0].wait(lambda: not t.alive)

    kill = terminate

    def close(self):
        pass


class _Pickler(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, (Queue, Event)):
            self.keep.append(o)
            return len(self.keep) - 1
        return None


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, i):
        return self.keep[i]


def copy(x):
    """A copy as the child process has it: queues are shared."""
    b = io.BytesIO()
    p = _Pickler(b)
    p.keep = []
    try:
        p.dump(x)
    except Exception:
        return x
    b.seek(0)
    u = _Unpickler(b)
    u.keep = p.keep
    return u.load()


class Queue(object):
    def __init__(self, maxsize=0, **k):
        s = S[0]
        self.max = maxsize if maxsize and maxsize > 0 else 0
        self.data = []      # what is in the pipe
        self.bufs = {}      # process -> what its feeder still holds
        self.flushed = {}
        self.held = set()
        self.n = 0
        s.queues.append(self)

    def _size(self):
        return len(self.data) + sum(len(b) for b in self.bufs.values())

    def put(self, obj, block=True, timeout=None):
        s = S[0]
        b = pickle.dumps(obj)
        if self.max and not s.wait(lambda: self._size() < self.max, timeout if block else 0):
            raise _q.Full
        s.point()
        self.bufs.setdefault(s.cur.num, []).append(b)
        s.point()

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = S[0]
        if not s.wait(lambda: bool(self.data), timeout if block else 0):
            raise _q.Empty
        return pickle.loads(self.data.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        S[0].point()
        return not self.data

    def full(self):
        S[0].point()
        return bool(self.max) and self._size() >= self.max

    def qsize(self):
        S[0].point()
        return self._size()

    def close(self):
        pass

    def join_thread(self):
        S[0].wait(lambda: not self.bufs.get(S[0].cur.num))

    def cancel_join_thread(self):
        pass


class Event(object):
    def __init__(self):
        self.v = False

    def set(self):
        self.v = True
        S[0].point()

    def clear(self):
        self.v = False

    def is_set(self):
        S[0].point()
        return self.v

    def wait(self, timeout=None):
        return S[0].wait(lambda: self.v, timeout)


def wait(objs, timeout=None):
    """multiprocessing.connection.wait for process sentinels."""
    S[0].wait(lambda: any(not o._t.alive for o in objs), timeout)
    return [o for o in objs if not o._t.alive]


class Pool(object):
    """A pool: the calls run one after another in a drawn order."""

    def __init__(self, processes=None, *a, **k):
        s = S[0]
        s.nproc += 1
        if s.refuse == s.nproc:
            s.count("fork-refused")
            raise OSError(11, "Resource temporarily unavailable")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def map(self, fn, xs, chunksize=None):
        xs = [copy(x) for x in xs]
        out = [None] * len(xs)
        order = list(range(len(xs)))
        S[0].rng.shuffle(order)
        for i in order:
            out[i] = copy(fn(xs[i]))
        return out

    def imap(self, fn, xs, chunksize=None):
        return iter(self.map(fn, xs))

    def imap_unordered(self, fn, xs, chunksize=None):
        out = self.map(fn, xs)
        S[0].rng.shuffle(out)
        return iter(out)

    def starmap(self, fn, xs, chunksize=None):
        return self.map(lambda a: fn(*a), xs)

    def apply(self, fn, args=(), kwds=None):
        return self.map(lambda a: fn(*a, **(kwds or {})), [args])[0]

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return _Result(lambda: self.apply(fn, args, kwds), callback, error_callback)

    def map_async(self, fn, xs, chunksize=None, callback=None, error_callback=None):
        xs = list(xs)
        return _Result(lambda: self.map(fn, xs), callback, error_callback)

    def starmap_async(self, fn, xs, chunksize=None, callback=None, error_callback=None):
        xs = list(xs)
        return _Result(lambda: self.starmap(fn, xs), callback, error_callback)

    def close(self):
        pass

    join = terminate = close


class _Result(object):
    def __init__(self, f, callback, error_callback):
        self.e = None
        try:
            self.v = f()
            if callback:
                callback(self.v)
        except Exception as e:
            self.e = e
            if error_callback:
                error_callback(e)

    def get(self, timeout=None):
        if self.e:
            raise self.e
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.e is None


def cpu_count():
    return S[0].cpus if S[0] else 4


def _sleep(t):
    if S[0] is None:
        return _real_time["sleep"](t)
    S[0].wait(lambda: False, t)


def _clock(name):
    real = _real_time[name]

    def f():
        s = S[0]
        return real() if s is None else 1.5e9 + s.now
    return f


_real_time = {n: getattr(time, n) for n in ("sleep", "time", "monotonic", "perf_counter")}


def install():
    real = os.cpu_count
    os.cpu_count = lambda: S[0].cpus if S[0] else real()
    time.sleep = _sleep
    for n in ("time", "monotonic", "perf_counter"):
        setattr(time, n, _clock(n))
    m = types.ModuleType("multiprocessing")
    for k, v in dict(Process=Process, Queue=Queue, SimpleQueue=Queue, JoinableQueue=Queue, Event=Event, Pool=Pool, cpu_count=cpu_count,
                     get_context=lambda *a: m, set_start_method=lambda *a, **k: None).items():
        setattr(m, k, v)
    c = types.ModuleType("multiprocessing.connection")
    c.wait = wait
    m.connection = c
    m.__path__ = []
    qs = types.ModuleType("multiprocessing.queues")
    qs.Queue, qs.Empty, qs.Full = Queue, _q.Empty, _q.Full
    m.queues = qs
    sys.modules["multiprocessing"] = m
    sys.modules["multiprocessing.connection"] = c
    sys.modules["multiprocessing.queues"] = qs
