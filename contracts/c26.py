"""C26: background tasks."""
import functools

from starlette.background import BackgroundTask, BackgroundTasks

from contracts.common import *
from engine.contract import Loop


class Err(Exception):
    pass


def func(c, kind, calls, fail=None):
    """a callable of every admissible shape that records its arguments and how it was run"""
    def sync(*args, **kwargs):
        calls.append((args, kwargs))
        if fail is not None:
            raise fail

    async def coro(*args, **kwargs):
        calls.append((args, kwargs))
        if fail is not None:
            raise fail

    class SyncObj:
        def __call__(self, *args, **kwargs):
            return sync(*args, **kwargs)

        def meth(self, *args, **kwargs):
            return sync(*args, **kwargs)

    class AsyncObj:
        async def __call__(self, *args, **kwargs):
            await coro(*args, **kwargs)

        async def meth(self, *args, **kwargs):
            await coro(*args, **kwargs)
    return {"def": sync, "async def": coro, "sync object": SyncObj(), "async object": AsyncObj(), "sync method": SyncObj().meth,
            "async method": AsyncObj().meth, "partial": functools.partial(sync), "async partial": functools.partial(functools.partial(coro))}[kind]


KINDS = ["def", "async def", "sync object", "async object", "sync method", "async method", "partial", "async partial"]


def one_task(c):
    """one task of every kind of callable"""
    calls = []
    fail = c.choose("fail", [None, Err("x")])
    f = func(c, c.choose("kind", KINDS), calls, fail)
    a1, a2, k1 = c.str("a1"), c.int("a2"), c.bytes("k1")
    nargs = c.choose("args", [0, 1, 2])
    kw = c.bool("kwargs")
    args = [(), (a1,), (a1, a2)][nargs]
    kwargs = {"k": k1, "other": a1} if kw else {}
    via = c.choose("via", ["task", "add_task"])
    if via == "task":
        t = BackgroundTask(f, *args, **kwargs)
        run = t
    else:
        run = BackgroundTasks()
        run.add_task(f, *args, **kwargs)
    c.check("creating a task runs nothing", calls == [])
    times = c.choose("invocations", [1, 2])
    for i in range(times):
        raised = None
        try:
            c.run(run())
        except Err as e:
            raised = e
        c.check("called exactly once per invocation", len(calls) == i + 1, calls)
        got_a, got_k = calls[i]
        c.check("with exactly its positional arguments", len(got_a) == nargs and all([x == y for x, y in zip(got_a, args)]), got_a)
        c.check("with exactly its keyword arguments", sorted(got_k) == sorted(kwargs) and all([got_k[k] == kwargs[k] for k in kwargs]), got_k)
        c.check("its failure propagates", raised is fail)


def threads(c):
    """non-coroutine callables run in a worker thread, coroutine functions on the event loop"""
    import threading
    where = []
    kind = c.choose("kind", ["def", "async def", "sync object", "async object", "partial", "async partial"])

    def sync():
        where.append("sync")

    async def coro():
        where.append("async")
    used = []

    async def fake_threadpool(func, *args, **kwargs):
        used.append(func)
        return func(*args, **kwargs)
    f = {"def": sync, "async def": coro, "partial": functools.partial(sync), "async partial": functools.partial(coro)}.get(kind)

    class S:
        def __call__(self):
            where.append("sync")

    class A:
        async def __call__(self):
            where.append("async")
    if f is None:
        f = S() if kind == "sync object" else A()
    main = threading.get_ident()
    ident = []
    c.stub("anyio.to_thread:run_sync", fake_threadpool)
    c.run(BackgroundTask(f)())
    c.check("run once", len(where) == 1)
    c.check("worker thread exactly for non-coroutine callables", (len(used) == 1) == (where == ["sync"]) and
            (kind in ("def", "sync object", "partial")) == (where == ["sync"]), (used, where))


class Ghost:
    """trace of an abstract task list: task i appends i; the trace is its length as long as it is 0,1,2,..."""
    _ghost_ok = True

    def __init__(self):
        self.n = 0
        self.ordered = True


class SeqLoop(Loop):
    def __init__(self, g, fail_at):
        self.g, self.fail_at = g, fail_at

    def gen(self, L, i):
        self.g.n = i
        self.g.ordered = True
        self.c.assume(self.c.any([self.fail_at < 0, self.fail_at >= i]))
        L.allow(self.g)

    def check(self, L, i):
        self.c.check("inv: exactly the first i tasks ran, in order", self.c.all([self.g.n == i, self.g.ordered, self.c.any([self.fail_at < 0, self.fail_at >= i])]))


def any_number(c):
    """a task list of any length runs every task once, in insertion order, stopping at the first failure"""
    g = Ghost()
    fail_at = c.int("fail at", lo=-1, ex=[-1, 0, 1, 2, 3])
    err = Err("x")
    counter = [0]

    def mk(c, n):
        idx = c.index(n)

        async def f():
            g.ordered = c.all([g.ordered, g.n == idx])
            g.n = g.n + 1
            if idx == fail_at:
                raise err
        return BackgroundTask(f)
    tasks = c.list("tasks", mk)
    c.loop("starlette.background:BackgroundTasks.__call__#0", SeqLoop(g, fail_at))
    bt = BackgroundTasks(tasks)
    raised = None
    try:
        c.run(bt())
    except Err as e:
        raised = e
    total = c.length(tasks)
    if raised is None:
        c.check("every task ran once, in order", c.all([g.ordered, g.n == total]))
        c.check("no failure was swallowed", c.not_(c.all([fail_at >= 0, fail_at < total])))
    else:
        c.check("the failing task ended the run", c.all([g.ordered, g.n == fail_at + 1]))


def lists(c):
    """concrete histories: copy semantics of the constructor, add_task, failure, re-invocation"""
    c.bound("at most 3 initial and 2 added tasks")
    calls = []
    n = c.choose("initial", [0, 1, 2, 3])
    fail = c.choose("fails", [None, 0, 1, 2, 3])
    err = Err("x")

    def mk(i):
        kind = c.choose("kind", ["def", "async def"])

        def sync(x):
            calls.append(x)
            if x == fail:
                raise err

        async def coro(x):
            calls.append(x)
            if x == fail:
                raise err
        return sync if kind == "def" else coro
    src = [BackgroundTask(mk(i), i) for i in range(n)]
    bt = BackgroundTasks(src)
    added = c.choose("added", [0, 1, 2])
    for j in range(added):
        bt.add_task(mk(n + j), n + j)
    c.check("later additions do not affect the source list", len(src) == n)
    src.append(BackgroundTask(mk(9), 99))
    raised = None
    try:
        c.run(bt())
    except Err as e:
        raised = e
    total = n + added
    if fail is not None and fail < total:
        c.check("stops at the first failure", calls == list(range(fail + 1)) and raised is err, calls)
    else:
        c.check("all run once in insertion order", calls == list(range(total)) and raised is None, calls)
    other = BackgroundTasks()
    c.check("lists do not share state", list(other.tasks) == [])


HARNESSES = [one_task, threads, any_number, lists]
