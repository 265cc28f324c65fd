"""C05: ExceptionMiddleware / wrap_app_handling_exceptions."""
import asyncio

from starlette._exception_handler import wrap_app_handling_exceptions
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import request_response

from contracts.common import *


class A(Exception):
    pass


class M(Exception):
    pass


class B(A):
    pass


class D(M, B):
    pass


class H(HTTPException):
    pass


class HA(HTTPException, A):
    pass


class Base(BaseException):
    pass


EXCS = [None, A, B, D, M, H, HA, HTTPException, WebSocketException, RuntimeError, Base]
KEYS = [Exception, A, B, M, HTTPException, H]


class Resp:
    """a response that records the send it is given and sends start + body"""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    async def __call__(self, scope, receive, send):
        self.log.append(("sent", self.tag, scope))
        await send({"type": "http.response.start", "status": 418, "headers": [], "tag": self.tag})
        await send({"type": "http.response.body", "body": b"handled"})


def handler(c, name, log, kinds=("sync", "async", "object")):
    kind = c.choose("kind", list(kinds))

    def sync(conn, exc):
        log.append(("handler", name, conn, exc))
        return Resp(name, log)

    async def coro(conn, exc):
        log.append(("handler", name, conn, exc))
        return Resp(name, log)

    class Obj:
        async def __call__(self, conn, exc):
            return await coro(conn, exc)
    return {"sync": sync, "async": coro, "object": Obj()}[kind]


def throwing_app(c, exc, before, log):
    async def app(scope, receive, send):
        log.append(("app", scope, receive))
        for m in before:
            await send(m)
        if exc is not None:
            raise exc
    return app


MSGS = {
    "start": {"type": "http.response.start", "status": 200, "headers": []},
    "body": {"type": "http.response.body", "body": b"x", "more_body": True},
    "debug": {"type": "http.response.debug", "info": {}},
}


def make_exc(c, cls):
    if cls is None:
        return None, None
    if issubclass(cls, HTTPException):
        st = c.int("status code", lo=100, hi=599, ex=[404, 405, 500, 401])
        return cls(status_code=st, detail="d"), st
    if cls is WebSocketException:
        return cls(code=1008), None
    return cls("boom"), None


def http(c):
    """handlers by status code and by class, for every class hierarchy and raise point"""
    log = []
    exc, status = make_exc(c, c.choose("exception", EXCS))
    before = [MSGS[k] for k in c.choose("messages before", [[], ["debug"], ["start"], ["start", "body"], ["debug", "start"]])]
    app = throwing_app(c, exc, before, log)
    registered = {}
    h = handler(c, "h", log) if exc is not None else (lambda conn, exc: None)

    def named(name):
        async def run(conn, e):
            log.append(("handler", name, conn, e))
            return Resp(name, log)
        return run
    mw = ExceptionMiddleware(app)
    expect = None
    if exc is not None:
        for k in KEYS:
            if isinstance(exc, k) and c.bool("register " + k.__name__):
                registered[k] = k.__name__
                mw.add_exception_handler(k, named(k.__name__))
        s1 = c.opt("status handler", lambda c, n: c.int(n, lo=100, hi=599, ex=[404, 405, 500, 401]))
        if s1 is not None:
            mw.add_exception_handler(s1, h)
        s2 = c.opt("other status handler", lambda c, n: c.int(n, lo=100, hi=599, ex=[404, 405, 500, 401]))
        if s2 is not None:
            c.assume(s2 != s1 if s1 is not None else True)
            mw.add_exception_handler(s2, named("other status"))
        # the property: status handler first, then the first class of the MRO that has a handler
        if status is not None and s1 is not None and status == s1:
            expect = "h"
        elif status is not None and s2 is not None and status == s2:
            expect = "other status"
        else:
            for cls in type(exc).__mro__:
                if cls in registered:
                    expect = registered[cls]
                    break
                if cls is HTTPException or cls is WebSocketException:
                    expect = "default"
                    break
    scope = {"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b""}
    send = Recorder()
    raised = None
    if expect == "default" and isinstance(exc, WebSocketException):
        c.done()
    try:
        c.run(mw(scope, no_receive, send))
    except BaseException as e:
        raised = e
    c.check("the application runs once with the caller's scope and receive",
            len([x for x in log if x[0] == "app"]) == 1 and log[0][1] is scope and log[0][2] is no_receive)
    n = len(before)
    c.check("messages of the application pass unchanged and first", send.sent[:n] == before and
            all([a is b for a, b in zip(send.sent[:n], before)]))
    handled = [x for x in log if x[0] == "handler"]
    started = any([m["type"] == "http.response.start" for m in before])
    if exc is None:
        c.check("nothing happens without an exception", raised is None and len(send.sent) == n and handled == [])
    elif expect is None:
        c.check("an exception without handler propagates unchanged", raised is exc, raised)
        c.check("and nothing is sent for it", len(send.sent) == n and handled == [])
    elif started:
        c.check("after the response started a RuntimeError is raised", type(raised) is RuntimeError and raised is not exc, raised)
        c.check("whose cause is the original exception", raised.__cause__ is exc)
        c.check("no handler runs and nothing more is sent", handled == [] and len(send.sent) == n)
    else:
        c.check("a handled exception does not propagate", raised is None, raised)
        rest = send.sent[n:]
        c.check("the response is sent exactly once", len(rest) == 2 and rest[0]["type"] == "http.response.start", rest)
        if expect == "default":
            c.check("no registered handler runs", handled == [])
            c.check("the default HTTP response states the status", rest[0]["status"] == status, rest)
        else:
            c.check("exactly the most specific handler runs, once", len(handled) == 1 and handled[0][1] == expect, (handled, expect))
            c.check("it gets the exception", handled[0][3] is exc)
            c.check("it gets the request", isinstance(handled[0][2], Request) and handled[0][2].scope is scope)
            c.check("its response is the one sent", rest[0].get("tag") == expect)


def default_handler(c):
    """the built-in HTTPException handler"""
    if c.bool("detail given"):
        status = c.int("status", lo=200, hi=599, ex=[204, 304, 404, 200])
        detail = c.str("detail", ex=["nope"])
    else:
        status = c.choose("known status", [200, 204, 304, 400, 404, 500])
        detail = None
    hv = c.str("header", re=TOKEN, ex=["v"])
    with_headers = c.bool("headers")
    exc = HTTPException(status, detail, headers={"X-H": hv}) if with_headers else HTTPException(status, detail)
    app = throwing_app(c, exc, [], [])
    scope = {"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b""}
    send = Recorder()
    c.run(ExceptionMiddleware(app)(scope, no_receive, send))
    st, headers, body = one_response(c, "default", send.sent)
    c.check("status", st == status)
    if with_headers:
        c.check("the exception's headers are sent", hdr(headers, b"x-h") == [hv.encode("latin-1")])
    if status == 204 or status == 304:
        c.check("no body for 204/304", body == b"")
    else:
        c.check("the body is the detail", body == exc.detail.encode("utf-8"), body)


def nested(c):
    """an endpoint wrapped by request_response below the middleware: one response, handler found by the inner wrapper"""
    log = []
    exc, status = make_exc(c, c.choose("exception", [A, B, H, RuntimeError]))

    async def endpoint(request):
        log.append(("endpoint",))
        raise exc

    async def app(scope, receive, send):
        await request_response(endpoint)(scope, receive, send)
    mw = ExceptionMiddleware(app, {A: handler(c, "A", log)})
    scope = {"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b""}
    send = Recorder()
    raised = None
    try:
        c.run(mw(scope, no_receive, send))
    except Exception as e:
        raised = e
    handled = [x for x in log if x[0] == "handler"]
    if isinstance(exc, RuntimeError):
        c.check("unhandled propagates unchanged through both wrappers", raised is exc and send.sent == [])
    else:
        c.check("handled once", raised is None and len(send.sent) == 2, send.sent)
        if isinstance(exc, A):
            c.check("by the registered handler, once", len(handled) == 1 and handled[0][3] is exc)


def websocket(c):
    """the same for WebSocket connections"""
    log = []
    exc, status = make_exc(c, c.choose("exception", [None, A, B, M, WebSocketException, RuntimeError]))
    reg = c.bool("register A")
    app = throwing_app(c, exc, [], log)

    async def h(ws, e):
        log.append(("handler", ws, e))
    mw = ExceptionMiddleware(app, {A: h} if reg else {})
    scope = {"type": "websocket", "path": "/", "headers": [], "query_string": b""}
    send = Recorder()
    raised = None
    try:
        c.run(mw(scope, no_receive, send))
    except Exception as e:
        raised = e
    handled = [x for x in log if x[0] == "handler"]
    if exc is None:
        c.check("nothing without exception", raised is None and send.sent == [])
    elif isinstance(exc, WebSocketException):
        c.check("closed once with the exception's code", raised is None and len(send.sent) == 1 and
                send.sent[0]["type"] == "websocket.close" and send.sent[0]["code"] == 1008, send.sent)
    elif isinstance(exc, A) and reg:
        c.check("handler runs once", raised is None and len(handled) == 1 and handled[0][2] is exc and send.sent == [])
    else:
        c.check("propagates", raised is exc and send.sent == [] and handled == [])


def server_fails(c):
    """the server's send raises while the start (or a later) message is being sent: the response has started"""
    at = c.choose("failing message", [0, 1, 2])
    msgs = [MSGS[k] for k in c.choose("messages", [["start", "body"], ["debug", "start", "body"]])]
    lost = OSError("connection lost")
    log = []
    seen = []

    async def send(message):
        seen.append(message)
        if len(seen) == at + 1:
            raise lost

    async def app(scope, receive, send):
        for m in msgs:
            await send(m)
    mw = ExceptionMiddleware(app, handlers={OSError: handler(c, "h", log)} if c.bool("handled") else {})
    handled = OSError in mw._exception_handlers if hasattr(mw, "_exception_handlers") else None
    raised = None
    try:
        c.run(mw({"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b""}, no_receive, send))
    except Exception as e:
        raised = e
    if at >= len(msgs):
        c.check("no error", raised is None and len(seen) == len(msgs))
        return
    if MSGS["start"] in msgs[:at + 1]:
        c.check("no handler runs after the response started", [x for x in log if x[0] == "handler"] == [], log)
        c.check("nothing follows", seen == msgs[:at + 1], seen)
        c.check("the failure is reported", raised is lost if handled is False else
                (raised is lost or (isinstance(raised, RuntimeError) and raised.__cause__ is lost)), raised)


def other_scope(c):
    """other connections pass through"""
    log = []
    exc = c.choose("exc", [None, A("x"), HTTPException(404)])
    scope = {"type": c.choose("type", ["lifespan", "x"])}
    send = Recorder()
    raised = None
    try:
        c.run(ExceptionMiddleware(throwing_app(c, exc, [{"type": "m"}], log))(scope, no_receive, send))
    except Exception as e:
        raised = e
    c.check("other scopes are untouched", raised is exc and send.sent == [{"type": "m"}] and list(scope) == ["type"])


HARNESSES = [http, server_fails, default_handler, nested, websocket, other_scope]
