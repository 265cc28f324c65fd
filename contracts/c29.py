"""C29: HTTPEndpoint dispatch."""
import functools

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.requests import Request
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Route

from contracts.common import *

STD = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"]


class Resp:
    def __init__(self, log):
        self.log = log

    async def __call__(self, scope, receive, send):
        self.log.append(("response", scope, receive))
        await send({"type": "http.response.start", "status": 201, "headers": [(b"x", b"y")]})
        await send({"type": "http.response.body", "body": b"z"})


def make(c, log, defined, is_async, inherited):
    """an endpoint class defining exactly `defined`, some of the handlers possibly inherited"""
    def handler(m):
        def sync(self, request):
            log.append(("handler", m, request))
            return Resp(log)

        async def coro(self, request):
            log.append(("handler", m, request))
            return Resp(log)
        return coro if is_async else sync
    base = {m.lower(): handler(m) for m in defined if m in inherited}
    own = {m.lower(): handler(m) for m in defined if m not in inherited}
    Base = type("Base", (HTTPEndpoint,), base)
    return type("Endpoint", (Base,), own)


def scope_for(method, extra=False):
    scope = {"type": "http", "method": method, "path": "/x", "root_path": "", "headers": [], "query_string": b""}
    if extra:
        scope["app"] = object()
    return scope


def dispatch(c):
    """any method against any set of handlers"""
    log = []
    method = c.choose("method", STD)
    defined = [m for m in STD if c.bool("define " + m)]
    is_async = c.bool("async")
    in_app = c.bool("inside an application")
    inherited = defined[::2] if c.bool("inherited") else []
    E = make(c, log, defined, is_async, inherited)
    used = []

    async def fake_threadpool(func, *args, **kwargs):
        used.append(func)
        return func(*args, **kwargs)
    c.stub("anyio.to_thread:run_sync", fake_threadpool)
    scope = scope_for(method, in_app)
    send = Recorder()
    raised = None

    async def go():
        await E(scope, no_receive, send)
    try:
        c.run(go())
    except HTTPException as e:
        raised = e
    expect = method if method in defined else ("GET" if method == "HEAD" and "GET" in defined else None)
    calls = [x for x in log if x[0] == "handler"]
    if expect is not None:
        c.check("exactly one handler, once: the one named after the method (GET for HEAD without its own)",
                [x[1] for x in calls] == [expect], calls)
        c.check("the handler gets the request of this scope", isinstance(calls[0][2], Request) and calls[0][2].scope is scope)
        c.check("sync handlers run in a worker thread", len(used) == (0 if is_async else 1))
        c.check("its response is sent exactly once", [x for x in log if x[0] == "response"] == [("response", scope, no_receive)])
        c.check("with its own messages", raised is None and [m["type"] for m in send.sent] == ["http.response.start", "http.response.body"] and
                send.sent[0]["status"] == 201, send.sent)
        return
    c.check("no handler runs for a method without handler", calls == [], calls)
    if in_app:
        c.check("inside an application the 405 is raised", raised is not None and raised.status_code == 405 and send.sent == [])
        allow = [v for k, v in raised.headers.items() if k.lower() == "allow"]
    else:
        c.check("outside an application the 405 is sent", raised is None)
        status, headers, body = one_response(c, "405", send.sent)
        c.check("status is 405", status == 405)
        allow = [v.decode() for v in hdr(headers, b"allow")]
    c.check("one Allow header", len(allow) == 1, allow)
    listed = [x.strip() for x in allow[0].split(",") if x.strip()]
    c.check("Allow lists exactly the methods the class defines", sorted(listed) == sorted(defined), allow)


def kinds(c):
    """a handler of any kind of callable: on the class, on the instance, in front of another one"""
    log, used = [], []
    is_async, where = c.bool("async"), c.choose("where", ["method", "static", "class method", "instance", "partial", "object", "property"])
    under = c.choose("and one of the other kind below", [False, True])

    def sync(*args):
        log.append(args[-1])
        return Resp(log)

    async def coro(*args):
        log.append(args[-1])
        return Resp(log)

    def other(self, request):
        log.append("other")
        return Resp(log)

    async def other_async(self, request):
        log.append("other")
        return Resp(log)

    class Sync:
        def __call__(self, *args):
            return sync(*args)

    class Async:
        async def __call__(self, *args):
            return await coro(*args)
    f = coro if is_async else sync
    below = {"post": other if is_async else other_async} if under else {}
    Base = type("Base", (HTTPEndpoint,), below)
    if where == "instance":
        class E(Base):
            def __init__(self, *args):
                super().__init__(*args)
                self.post = f
    else:
        g = {"method": f, "static": staticmethod(f), "class method": classmethod(f), "partial": staticmethod(functools.partial(f, 1)),
             "object": Async() if is_async else Sync(), "property": property(lambda self: f)}[where]
        E = type("E", (Base,), {"post": g})

    async def fake_threadpool(func, *args, **kwargs):
        used.append(func)
        return func(*args, **kwargs)
    c.stub("anyio.to_thread:run_sync", fake_threadpool)
    scope, send = scope_for("POST"), Recorder()

    async def go():
        await E(scope, no_receive, send)
    c.run(go())
    c.check("the handler is called once, with the request", len([x for x in log if not isinstance(x, tuple)]) == 1 and isinstance(log[0], Request) and log[0].scope is scope, log)
    c.check("sync handlers run in a worker thread", len(used) == (0 if is_async else 1))
    c.check("its response is sent exactly once", [x for x in log if isinstance(x, tuple)] == [("response", scope, no_receive)] and len(send.sent) == 2, log)


def in_application(c):
    """through Route and Starlette: an endpoint class accepts every method and answers 405 itself"""
    log = []
    method = c.choose("method", STD)
    defined = c.choose("defined", [[], ["GET"], ["POST"], ["GET", "DELETE"], ["GET", "HEAD"], ["OPTIONS"], STD])
    E = make(c, log, defined, c.bool("async"), [])
    app = Starlette(routes=[Route("/x", E)])
    send = Recorder()
    c.run(app(scope_for(method), no_receive, send))
    expect = method if method in defined else ("GET" if method == "HEAD" and "GET" in defined else None)
    calls = [x[1] for x in log if x[0] == "handler"]
    if expect is not None:
        c.check("its handler answers", calls == [expect] and send.sent[0]["status"] == 201 and len(send.sent) == 2, calls)
        return
    status, headers, body = one_response(c, "405", send.sent)
    c.check("405 without calling a handler", status == 405 and calls == [])
    allow = [v.decode() for v in hdr(headers, b"allow")]
    c.check("with an exact Allow header", len(allow) == 1 and sorted([x.strip() for x in allow[0].split(",") if x.strip()]) == sorted(defined), allow)


def failing(c):
    """a handler's exception propagates and nothing is sent; later requests use fresh instances"""
    method = c.choose("method", ["GET", "POST"])
    is_async = c.bool("async")
    boom = ValueError("x")
    seen = []

    class E(HTTPEndpoint):
        def get(self, request):
            seen.append(self)
            raise boom

        async def post(self, request):
            seen.append(self)
            raise boom
    for i in range(2):
        send = Recorder()
        raised = None

        async def go():
            await E(scope_for(method), no_receive, send)
        try:
            c.run(go())
        except ValueError as e:
            raised = e
        c.check("the handler's exception propagates", raised is boom and send.sent == [] and len(seen) == i + 1)
    c.check("one instance per request", seen[0] is not seen[1])


HARNESSES = [dispatch, kinds, in_application, failing]
