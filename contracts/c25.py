"""C25: the lifespan exchange."""
import contextlib
import warnings

from starlette.applications import Starlette
from starlette.routing import Router

from contracts.common import *


class Err(Exception):
    pass


class Stop(BaseException):
    """like a cancellation or an interrupt"""


class Log:
    """everything that happens, in order: the server's side and the application's side"""

    def __init__(self, fail_wait=None):
        self.events, self.fail_wait, self.waits = [], fail_wait, 0

    def add(self, *what):
        self.events.append(what)

    async def receive(self):
        self.waits += 1
        self.add("receive")
        if self.waits == 2 and self.fail_wait is not None:
            raise self.fail_wait
        return {"type": "lifespan.startup" if self.waits == 1 else "lifespan.shutdown"}

    async def send(self, message):
        self.add("send", message)


class Context:
    """a lifespan: its startup part, what it produces, its shutdown part"""

    def __init__(self, log, state, enter, leave):
        self.log, self.state, self.enter, self.leave = log, state, enter, leave
        self.apps = []

    def __call__(self, app):
        self.apps.append(app)
        return self

    async def __aenter__(self):
        self.up()
        return self.state

    async def __aexit__(self, t, e, tb):
        self.down()

    def up(self):
        self.log.add("startup begins")
        if self.enter is not None:
            raise self.enter
        self.log.add("startup ends")

    def down(self):
        self.log.add("shutdown begins")
        if self.leave is not None:
            raise self.leave
        self.log.add("shutdown ends")

    def generator(self):
        def lifespan(app):
            self.apps.append(app)
            self.up()
            yield self.state
            self.down()
        return lifespan

    def async_generator(self):
        async def lifespan(app):
            self.apps.append(app)
            self.up()
            yield self.state
            self.down()
        return lifespan

    def handlers(self):
        async def up():
            self.up()
        return [up], [self.down]


def sent(c, label, event, kind, failed=None):
    c.check(label, event[0] == "send" and event[1]["type"] == kind, (event, kind))
    if failed is not None:
        m = event[1]["message"]
        c.check(label + ": with the traceback", m.startswith("Traceback (most recent call last)") and (type(failed).__name__ + ": " + str(failed)) in m, m)


def error(c, name, none=True):
    k = c.choose(name, ([None] if none else []) + [Err, ValueError, Stop, KeyboardInterrupt])
    return None if k is None else k(name + " went wrong")


def exchange(c):
    """startup, wait, shutdown: what is sent when, and what is raised"""
    how = c.choose("lifespan", ["context", "asynccontextmanager", "async generator", "generator", "handlers", "none"])
    enter = error(c, "enter") if how != "none" else None
    has_state = c.bool("produces state") if how not in ("handlers", "none") and enter is None else False
    supported = c.bool("state supported")
    fine = enter is None and (supported or not has_state)
    leave = error(c, "leave") if how != "none" and fine else None
    wait = error(c, "wait") if how == "context" and fine and leave is None else None
    new, old, kept = c.str("new"), c.str("old"), c.str("kept")
    log = Log(wait)
    ctx = Context(log, {"a": new} if has_state else None, enter, leave)
    in_app = c.bool("in an application")
    make = Starlette if in_app else Router
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "none":
            router = make()
        elif how == "handlers":
            up, down = ctx.handlers()
            router = make(on_startup=up, on_shutdown=down)
        elif how == "context":
            router = make(lifespan=ctx)
        elif how == "asynccontextmanager":
            router = make(lifespan=contextlib.asynccontextmanager(ctx.async_generator()))
        else:
            router = make(lifespan=ctx.async_generator() if how == "async generator" else ctx.generator())
    scope = {"type": "lifespan", "asgi": {"version": "3.0"}}
    if supported:
        scope["state"] = {"a": old, "z": kept}
    state = scope.get("state")
    err = None
    try:
        c.run(router(scope, log.receive, log.send))
    except (Exception, Stop, KeyboardInterrupt) as e:
        err = e
    ev = log.events
    if how not in ("handlers", "none"):
        c.check("the lifespan is entered once, with the application", len(ctx.apps) == 1 and ctx.apps[0] is (router if in_app else None), ctx.apps)
    kinds = [e[0] for e in ev]
    started = ["receive"] if how == "none" else ["receive", "startup begins", "startup ends"]
    if enter is not None:
        c.check("startup fails: nothing but the failure is reported", kinds == ["receive", "startup begins", "send"], ev)
        sent(c, "startup failed", ev[2], "lifespan.startup.failed", enter)
        c.check("the error is re-raised", err is enter, err)
        return
    if has_state and not supported:
        c.check("state without support is an error", isinstance(err, RuntimeError), err)
        sends = [e for e in ev if e[0] == "send"]
        c.check("reported once", len(sends) == 1, ev)
        sent(c, "startup failed", sends[0], "lifespan.startup.failed", err)
        return
    c.check("startup runs after the startup message", kinds[:len(started)] == started, ev)
    ev, kinds = ev[len(started):], kinds[len(started):]
    sent(c, "startup complete", ev[0], "lifespan.startup.complete")
    if has_state:
        c.check("the state is placed in the server's state", scope["state"] is state and state == {"a": new, "z": kept}, state)
    elif supported:
        c.check("the server's state is kept", state == {"a": old, "z": kept}, state)
    if wait is not None:
        c.check("waiting fails", kinds in (["send", "receive", "shutdown begins", "shutdown ends", "send"], ["send", "receive", "shutdown begins", "send"]), ev)
        sent(c, "shutdown failed", ev[-1], "lifespan.shutdown.failed", wait)
        c.check("the error is re-raised", err is wait, err)
        return
    if leave is not None:
        c.check("shutdown fails: nothing but the failure is reported", kinds == ["send", "receive", "shutdown begins", "send"], ev)
        sent(c, "shutdown failed", ev[3], "lifespan.shutdown.failed", leave)
        c.check("the error is re-raised", err is leave, err)
        return
    c.check("shutdown runs after the shutdown message", kinds == ["send", "receive"] + ([] if how == "none" else ["shutdown begins", "shutdown ends"]) + ["send"], ev)
    sent(c, "shutdown complete", ev[-1], "lifespan.shutdown.complete")
    c.check("no error", err is None, err)


class Failing(Log):
    """a server that fails when told of this"""

    def __init__(self, at, error):
        super().__init__()
        self.at, self.error = at, error

    async def send(self, message):
        self.add("send", message)
        if message["type"] == self.at:
            raise self.error


def reporting(c):
    """the server fails while completion is reported to it"""
    at = c.choose("fails at", ["lifespan.startup.complete", "lifespan.shutdown.complete"])
    e = error(c, "send", none=False)
    log = Failing(at, e)
    ctx = Context(log, None, None, None)
    err = None
    try:
        c.run(Router(lifespan=ctx)({"type": "lifespan"}, log.receive, log.send))
    except (Exception, Stop, KeyboardInterrupt) as x:
        err = x
    c.check("the error is re-raised", err is e, err)
    sends = [x for x in log.events if x[0] == "send"]
    if at == "lifespan.startup.complete":
        c.check("one more message", len(sends) == 2, sends)
        sent(c, "startup failed", sends[1], "lifespan.startup.failed", e)
        c.check("no wait for the shutdown", log.waits == 1)
        return
    c.check("nothing more is sent", [x[1]["type"] for x in sends] == ["lifespan.startup.complete", at], sends)


class Calls:
    """ghost: the handlers run so far"""
    _ghost_ok = True

    def __init__(self, c):
        self.c, self.n, self.err = c, 0, None


class Sync:
    def __init__(self, calls, at, fails):
        self.calls, self.at, self.fails = calls, at, fails

    def run(self):
        self.calls.c.check("handlers run once each, in order", self.calls.n == self.at)
        self.calls.n = self.calls.n + 1
        if self.fails:
            self.calls.err = Err("handler")
            raise self.calls.err

    def __call__(self):
        self.run()


class Async(Sync):
    async def __call__(self):
        self.run()


class Running(Loop):
    """the handlers before ran, and none failed"""

    def __init__(self, calls):
        self.calls = calls

    def gen(self, L, i):
        L.none(lambda h: h.fails, i)
        self.calls.n = i
        return {}

    def check(self, L, i):
        self.c.check("inv: every handler so far ran", self.calls.n == i)
        self.c.check("inv: none failed", not L.some(lambda h: h.fails, i))


def handlers(c):
    """startup and shutdown handlers"""
    which = c.choose("part", ["startup", "shutdown"])
    calls = Calls(c)
    hs = c.list("handlers", lambda c, n: (Async if c.bool(n + ".async") else Sync)(calls, c.index(n), c.bool(n + ".fails")))
    c.loop(f"starlette.routing:Router.{which}#0", Running(calls))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        router = Router(on_startup=hs) if which == "startup" else Router(on_shutdown=hs)
    err = None
    try:
        c.run(router.startup() if which == "startup" else router.shutdown())
    except Err as e:
        err = e
    first = seq_first(hs, lambda h: h.fails)
    if first is None:
        c.check("all handlers run", calls.n == c.length(hs) and err is None, (calls.n, err))
    else:
        c.check("it stops at the first failure", calls.n == first.at + 1, (calls.n, first.at))
        c.check("whose error is raised", err is calls.err and err is not None, err)


def registered(c):
    """handlers added one by one, on an application and its router"""
    c.bound("at most 3 handlers")
    log = []
    in_app = c.bool("on an application")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = c.bool("one given")

        def given():
            log.append("given")
        app = (Starlette if in_app else Router)(on_startup=[given] if first else None, on_shutdown=[given] if first else None)
        n = c.choose("added", [0, 1, 2, 3])
        want = {"startup": ["given"] if first else [], "shutdown": ["given"] if first else []}
        for i in range(n):
            event = c.choose(f"event {i}", ["startup", "shutdown"])
            kind = c.choose(f"how {i}", ["add", "decorator"])

            def h(i=i):
                log.append(i)
            if kind == "add":
                app.add_event_handler(event, h)
            else:
                c.check("the decorated function is kept", app.on_event(event)(h) is h)
            want[event].append(i)
    events = Log()
    c.run(app({"type": "lifespan"}, events.receive, events.send))
    c.check("all run, in order of registration", log == want["startup"] + want["shutdown"], (log, want))
    c.check("two reports", [e[1]["type"] for e in events.events if e[0] == "send"] == ["lifespan.startup.complete", "lifespan.shutdown.complete"], events.events)


HARNESSES = [exchange, reporting, handlers, registered]
