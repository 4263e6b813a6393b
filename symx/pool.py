"""Stand-ins for thread pools: tasks run in their own threads, one at a time; which one continues is decided by the schedule of
the harness (`SCHED`, see Sched) at its gates.  Without a schedule the tasks run one after another."""
import concurrent.futures
import importlib
import multiprocessing
import threading
import types
from .core import PathAbort

SCHED = [None]


class Sched:
    """order: owner of each successive segment.  A task calls gate(me, i) for i = 0..last; the segment between two gates runs
    when the order says so."""

    def __init__(self, order, last, timeout):
        self.order, self.last, self.timeout = list(order), last, timeout
        self.cond = threading.Condition()
        self.pos = 0
        self.dead = False
        self.missed = False

    def gate(self, me, i):
        with self.cond:
            if i > 0:
                self.pos += 1
                self.cond.notify_all()
            if i < self.last:
                ok = self.cond.wait_for(lambda: self.dead or self.missed or self.pos >= len(self.order) or self.order[self.pos] == me, self.timeout)
                if not ok:
                    # not a concurrent execution (or a worker less): go on without the schedule
                    self.missed = True
                    self.cond.notify_all()
                if self.dead:
                    raise PathAbort('other task ended the path')


def run_all(calls):
    """results of the calls in order of completion: [(index, ok, value)]"""
    s = SCHED[0]
    done = []
    if s is None:
        for i, f in enumerate(calls):
            try:
                done.append((i, True, f()))
            except Exception as e:
                done.append((i, False, e))
        return done
    fatal = []

    def body(i, f):
        with s.cond:
            if fatal:
                return
            try:
                done.append((i, True, f()))
            except Exception as e:
                done.append((i, False, e))
            except BaseException as e:
                fatal.append(e)
                s.dead = True
            s.cond.notify_all()
    old = threading.stack_size()
    threading.stack_size(256 * 2 ** 20)
    ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(calls)]
    try:
        for t in ts:
            t.start()
    finally:
        threading.stack_size(old)
    for t in ts:
        t.join()
    if fatal:
        raise fatal[0]
    return done


class Future(concurrent.futures.Future):
    pass


class Base:
    def __init__(self, *a, **k):
        self.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.flush()

    def flush(self):
        p, self.pending = self.pending, []
        if not p:
            return []
        out = run_all([f for f, _ in p])
        for i, ok, v in out:
            (p[i][1].set_result if ok else p[i][1].set_exception)(v)
        return [p[i][1] for i, _, _ in out]

    def add(self, f, *a, **k):
        u = Future()
        u.pool = self
        self.pending.append((lambda: f(*a, **k), u))
        return u


class ThreadPool(Base):
    def imap_unordered(self, f, xs, chunksize=1):
        for x in xs:
            self.add(f, x)
        for u in self.flush():
            yield u.result()

    def imap(self, f, xs, chunksize=1):
        us = [self.add(f, x) for x in xs]
        self.flush()
        for u in us:
            yield u.result()

    def map(self, f, xs, chunksize=None):
        return list(self.imap(f, xs))

    def starmap(self, f, xs, chunksize=None):
        return list(self.imap(lambda a: f(*a), xs))

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        u = self.add(f, *args, **kwds)
        if callback:
            u.add_done_callback(lambda u: callback(u.result()) if not u.exception() else None)
        u.get = lambda timeout=None: (self.flush(), u.result())[1]
        return u

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def close(self): pass

    def terminate(self): pass

    def join(self):
        self.flush()


class Executor(Base):
    def submit(self, f, *a, **k):
        return self.add(f, *a, **k)

    def map(self, f, *xs, timeout=None, chunksize=1):
        us = [self.add(f, *a) for a in zip(*xs)]

        def it():
            self.flush()
            for u in us:
                yield u.result()
        return it()

    def shutdown(self, wait=True, cancel_futures=False):
        self.flush()


def as_completed(fs, timeout=None):
    fs = list(fs)
    order = []
    for p in dict.fromkeys(u.pool for u in fs):
        order += p.flush()
    for u in order + [u for u in fs if u not in order]:
        if u in fs:
            yield u


def wait(fs, timeout=None, return_when=None):
    fs = set(fs)
    for p in {u.pool for u in fs}:
        p.flush()
    return types.SimpleNamespace(done=fs, not_done=set())


class Front(types.ModuleType):
    def __init__(self, name, over):
        super().__init__(name)
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(importlib.import_module(self.__name__), n)


def fronts():
    pool = Front('multiprocessing.pool', {'ThreadPool': ThreadPool})
    fut = Front('concurrent.futures', {'ThreadPoolExecutor': Executor, 'as_completed': as_completed, 'wait': wait})
    return {'multiprocessing': Front('multiprocessing', {'pool': pool}), 'concurrent': Front('concurrent', {'futures': fut})}
