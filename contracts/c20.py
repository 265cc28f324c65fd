"""C20: requires() and AuthenticationMiddleware."""
from urllib.parse import urlencode

from starlette.authentication import (AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser,
                                      UnauthenticatedUser, requires)
from starlette.exceptions import HTTPException
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse, RedirectResponse
from starlette.websockets import WebSocket

from contracts.common import *
from engine.contract import Loop, seq_any

NAMES = ["a", "b", "admin", "ab", ""]


def scope_name(c, n):
    return c.str(n, ex=NAMES)


class ScopesLoop(Loop):
    """every scope looked at so far is granted"""

    def __init__(self, missing):
        self.missing = missing

    def gen(self, L, i):
        L.none(self.missing, i)

    def check(self, L, i):
        self.c.check("inv: every scope so far is granted", not L.some(self.missing, i))


class Router:
    def __init__(self, url):
        self.url, self.calls = url, []

    def url_path_for(self, name, /, **params):
        from starlette.datastructures import URLPath
        self.calls.append((name, params))
        return URLPath(path=self.url)


def credentials(c, granted):
    """the connection's credentials: the library's class, or any object with `scopes`"""
    class Creds:
        scopes = granted
    return AuthCredentials(granted) if c.bool("AuthCredentials") else Creds()


def guarded(c):
    """any scopes required and granted, every kind of endpoint"""
    log = []
    kind = c.choose("endpoint", ["sync", "async", "websocket"])
    position = c.choose("connection argument", ["only", "first", "second", "keyword", "method", "keyword-only"])
    required = c.list("required", scope_name)
    granted = c.list("granted", scope_name)
    single = c.bool("single scope given as a string")
    if single:
        one = scope_name(c, "single")
        required = [one]
    missing = lambda s: not seq_any(granted, lambda g: g == s)
    c.loop("starlette.authentication:has_required_scope#0", ScopesLoop(missing))
    status = c.choose("status", [None, 401, 404])
    redirect = c.choose("redirect", [None, "login"])
    kw = {} if status is None else {"status_code": status}
    if redirect is not None:
        kw["redirect"] = redirect
    name = "websocket" if kind == "websocket" else "request"
    arg2 = object()

    def body(conn, *rest):
        log.append((conn, rest))
        return "result"
    if kind == "sync":
        if position in ("only", "keyword"):
            def f(request): return body(request)
        elif position == "first":
            def f(request, other): return body(request, other)
        elif position == "second":
            def f(other, request): return body(request, other)
        elif position == "keyword-only":
            def f(*, request): return body(request)
        else:
            def f(self, request): return body(request, self)
    elif kind == "async":
        if position in ("only", "keyword"):
            async def f(request): return body(request)
        elif position == "first":
            async def f(request, other): return body(request, other)
        elif position == "second":
            async def f(other, request): return body(request, other)
        elif position == "keyword-only":
            async def f(*, request): return body(request)
        else:
            async def f(self, request): return body(request, self)
    else:
        if position in ("only", "keyword"):
            async def f(websocket): body(websocket)
        elif position == "first":
            async def f(websocket, other): body(websocket, other)
        elif position == "second":
            async def f(other, websocket): body(websocket, other)
        elif position == "keyword-only":
            async def f(*, websocket): body(websocket)
        else:
            async def f(self, websocket): body(websocket, self)
    g = requires(required[0] if single else required, **kw)(f)
    sent = Recorder()
    router = Router("/login")
    scope = {"type": "websocket" if kind == "websocket" else "http", "method": "GET", "headers": [(b"host", b"h")], "root_path": "",
             "path": "/" + c.str("path", re=PATH_TAIL, ex=["", "a/b"]), "query_string": c.str("query", re=QUERY, ex=["", "a=1&b=2"]).encode("ascii"),
             "scheme": "http", "router": router, "auth": credentials(c, granted)}
    conn = WebSocket(scope, no_receive, sent) if kind == "websocket" else Request(scope, no_receive)
    if position == "method":
        class K:
            meth = g
        k = K()
        args, kwargs, rest = (conn,), {}, (k,)
        target = k.meth
    else:
        target = g
        args, kwargs, rest = {"only": ((conn,), {}, ()), "first": ((conn, arg2), {}, (arg2,)), "second": ((arg2, conn), {}, (arg2,)),
                              "keyword": ((), {name: conn}, ()), "keyword-only": ((), {name: conn}, ())}[position]
    raised = None
    result = None
    try:
        result = target(*args, **kwargs)
        if kind != "sync":
            result = c.run(result)
    except HTTPException as e:
        raised = e
    allowed = not seq_any(required, missing)
    ran = len(log) > 0
    c.check("the endpoint runs exactly when every required scope is granted", ran == allowed, (required, granted))
    if ran:
        c.check("once, with its own arguments", len(log) == 1 and log[0][0] is conn and len(log[0][1]) == len(rest) and
                all([a is b for a, b in zip(log[0][1], rest)]))
        c.check("its result is returned", raised is None and result == (None if kind == "websocket" else "result") and sent.sent == [])
    elif kind == "websocket":
        c.check("otherwise the websocket is closed", len(sent.sent) == 1 and sent.sent[0]["type"] == "websocket.close" and raised is None)
    elif redirect is None:
        c.check("otherwise the configured status error", raised is not None and raised.status_code == (403 if status is None else status))
    else:
        c.check("otherwise a 303 redirect", raised is None and isinstance(result, RedirectResponse) and result.status_code == 303)
        c.check("to the named route", router.calls == [("login", {})])
        c.check("carrying the original URL", result.headers["location"] == "http://h/login?" + urlencode({"next": str(conn.url)}))


def misuse(c):
    """a function without a connection argument is refused when decorated"""
    def f(req): pass
    refused = False
    try:
        requires("a")(f)
    except Exception:
        refused = True
    c.check("refused", refused)


class Backend(AuthenticationBackend):
    def __init__(self, result, log):
        self.result, self.log = result, log

    async def authenticate(self, conn):
        self.log.append(("authenticate", conn))
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


class MyErr(AuthenticationError):
    pass


class Other(Exception):
    pass


def middleware(c):
    """the authentication layer, for every outcome of the backend"""
    log = []
    kind = c.choose("type", ["http", "websocket", "lifespan"])
    text = c.str("error text", ex=["bad credentials", "é"])
    outcome = c.choose("backend", ["result", "nothing", "error", "error subclass", "crash"])
    creds, user = AuthCredentials(["a"]), SimpleUser("u")
    crash = Other("x")
    result = {"result": (creds, user), "nothing": None, "error": AuthenticationError(text), "error subclass": MyErr(text), "crash": crash}[outcome]
    seen = []

    async def app(scope, receive, send):
        seen.append((scope, receive, send, scope.get("auth"), scope.get("user")))
        await send({"type": "from the app"})
    kw = {}
    on_error = c.bool("on_error")
    if on_error:
        def handler(conn, exc):
            log.append(("on_error", conn, exc))
            return PlainTextResponse("custom", status_code=401)
        kw["on_error"] = handler
    mw = AuthenticationMiddleware(app, backend=Backend(result, log), **kw)
    scope = {"type": kind, "method": "GET", "path": "/", "headers": [], "query_string": b""}
    send = Recorder()
    raised = None
    try:
        c.run(mw(scope, no_receive, send))
    except Other as e:
        raised = e
    auths = [x for x in log if x[0] == "authenticate"]
    if kind == "lifespan":
        c.check("other traffic passes untouched", len(seen) == 1 and auths == [] and "auth" not in scope and "user" not in scope)
        return
    c.check("the backend is asked once about this connection", len(auths) == 1 and isinstance(auths[0][1], HTTPConnection) and auths[0][1].scope is scope)
    if outcome == "crash":
        c.check("a crashing backend never reaches the application", raised is crash and seen == [] and send.sent == [])
    elif outcome in ("result", "nothing"):
        c.check("the application is called once with the same scope and channels", len(seen) == 1 and seen[0][0] is scope and seen[0][1] is no_receive and
                seen[0][2] is send)
        if outcome == "result":
            c.check("with exactly the backend's result", seen[0][3] is creds and seen[0][4] is user)
        else:
            c.check("with unauthenticated defaults", list(seen[0][3].scopes) == [] and isinstance(seen[0][4], UnauthenticatedUser) and
                    seen[0][4].is_authenticated is False)
        c.check("its messages pass", send.sent == [{"type": "from the app"}])
    else:
        c.check("the application is not called after an authentication error", seen == [] and raised is None)
        if kind == "websocket":
            c.check("the websocket is closed", len(send.sent) == 1 and send.sent[0]["type"] == "websocket.close", send.sent)
        else:
            status, headers, body = one_response(c, "error response", send.sent)
            if on_error:
                errs = [x for x in log if x[0] == "on_error"]
                c.check("the custom error response is used", len(errs) == 1 and errs[0][2] is result and status == 401 and body == b"custom")
            else:
                c.check("400 with the error text", status == 400 and body == text.encode("utf-8"))


HARNESSES = [guarded, misuse, middleware]
