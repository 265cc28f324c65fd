"""C24: middleware order and construction of the stack."""
from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

from contracts.common import *


class A(Exception):
    pass


class MW:
    """an ASGI middleware that logs entering and leaving; may raise before or after calling on"""

    def __init__(self, app, tag, log, *extra, fail=None, key=None):
        self.app, self.tag, self.log, self.extra, self.fail, self.key = app, tag, log, extra, fail, key
        log.append(("built", tag, extra, key))

    async def __call__(self, scope, receive, send):
        self.log.append(("enter", self.tag))
        if self.fail is not None and scope["type"] == "http":
            raise self.fail

        async def s(message):
            self.log.append(("send", self.tag, message["type"]))
            await send(message)
        try:
            await self.app(scope, receive, s)
        finally:
            self.log.append(("leave", self.tag))


def http_scope(path="/"):
    return {"type": "http", "method": "GET", "path": path, "headers": [], "query_string": b"", "root_path": ""}


def expect_order(c, label, log, tags, last):
    got = [x[:2] for x in log if x[0] in ("enter", "leave", "endpoint")]
    want = [("enter", t) for t in tags] + last + [("leave", t) for t in reversed(tags)]
    c.check(label, got == want, got)


def stack(c):
    """whole stacks, run: order, built once, who answers an error"""
    c.bound("at most 3 declared and 2 added middleware")
    log = []
    n = c.choose("middleware", [0, 1, 2, 3])
    added = c.choose("added later", [0, 1, 2])
    where = c.choose("raise", ["nowhere", "endpoint A", "endpoint 404", "endpoint other", "first middleware 404", "last middleware A"])
    tags = [f"m{i}" for i in range(n)]
    total = [f"a{i}" for i in reversed(range(added))] + tags      # newly added go outermost
    fails = {}
    if total and where == "first middleware 404":
        fails[total[0]] = HTTPException(404)
    if total and where == "last middleware A":
        fails[total[-1]] = A("x")
    mws = [Middleware(MW, t, log, i, fail=fails.get(t), key=t) for i, t in enumerate(tags)]
    endpoint_exc = {"endpoint A": A("x"), "endpoint 404": HTTPException(404), "endpoint other": RuntimeError("x")}.get(where)

    async def endpoint(request):
        log.append(("endpoint", request.scope["app"] is app))
        if endpoint_exc is not None:
            raise endpoint_exc
        return PlainTextResponse("ok")

    def on(tag):
        async def h(request, exc):
            log.append(("handler", tag))
            return PlainTextResponse(tag, status_code=499)
        return h
    h500 = c.choose("server error handler", [None, 500, Exception, "both", "both reversed"])
    handlers = {A: on("A"), 404: on("404")}
    if h500 in ("both", "both reversed"):
        for k in ((500, Exception) if h500 == "both" else (Exception, 500)):
            handlers[k] = on("500")
    elif h500 is not None:
        handlers[h500] = on("500")
    late = c.bool("handlers registered later")
    app = Starlette(routes=[Route("/", endpoint)], middleware=list(mws), exception_handlers={} if late else dict(handlers))
    c.check("nothing is built before the first request", log == [], log)
    for i in range(added):
        t = f"a{i}"
        app.add_middleware(MW, t, log, fail=fails.get(t), key=t)
    if late:
        for k, v in handlers.items():
            app.add_exception_handler(k, v)
    send = Recorder()
    raised = None
    try:
        c.run(app(http_scope(), no_receive, send))
    except Exception as e:
        raised = e
    built = [x for x in log if x[0] == "built"]
    c.check("every middleware is built exactly once, innermost first", [b[1] for b in built] == list(reversed(total)), built)
    for b in built:
        c.check("with its own arguments", b[3] == b[1] and b[2] == ((int(b[1][1:]),) if b[1][0] == "m" else ()), b)
    handled = [x[1] for x in log if x[0] == "handler"]
    done = [("endpoint", True)]
    if fails:
        cut = [t for t in total if t in fails][0]
        order = total[:total.index(cut) + 1]
        got = [x for x in log if x[0] == "enter"]
        c.check("entered up to the failing middleware", [x[1] for x in got] == order, got)
        c.check("the endpoint is not reached", [x for x in log if x[0] == "endpoint"] == [])
        c.check("an error in user middleware reaches only the server-error layer", raised is fails[cut] and
                handled == (["500"] if h500 is not None else []), handled)
        c.check("which answers once", len(send.sent) == 2 and send.sent[0]["status"] == (499 if h500 is not None else 500), send.sent)
    else:
        expect_order(c, "user middleware run first to last around the endpoint", log, total, done)
        outside = [x for x in log if x[0] == "send" and x[2] == "http.response.start"]
        if where == "endpoint other":
            c.check("an unhandled error is answered by the server-error layer", raised is endpoint_exc and
                    handled == (["500"] if h500 is not None else []), handled)
            c.check("outside all user middleware", outside == [], outside)
            c.check("once", len(send.sent) == 2 and send.sent[0]["status"] == (499 if h500 is not None else 500), send.sent)
        else:
            tag = {"endpoint A": ["A"], "endpoint 404": ["404"]}.get(where, [])
            c.check("handlers other than 500/Exception belong to the exception layer", raised is None and handled == tag, handled)
            c.check("whose response passes through every user middleware", [x[1] for x in outside] == list(reversed(total)), outside)
            c.check("one response", len(send.sent) == 2 and send.sent[0]["status"] == (499 if tag else 200), send.sent)
    # second request: nothing is rebuilt, additions are refused
    before = len(built)
    try:
        c.run(app(http_scope(), no_receive, Recorder()))
    except Exception:
        pass
    c.check("the stack is built once", len([x for x in log if x[0] == "built"]) == before)
    refused = False
    try:
        app.add_middleware(MW, "late", log)
    except RuntimeError:
        refused = True
    c.check("adding middleware after start is refused", refused)


def levels(c):
    """application, router, mount and route level middleware nest outside-in, each list first to last"""
    c.bound("at most 2 middleware per level")
    log = []

    def mws(level):
        k = c.choose(level, [0, 1, 2])
        return [Middleware(MW, f"{level}{i}", log, key=i) for i in range(k)], [f"{level}{i}" for i in range(k)]
    app_m, t1 = mws("app")
    kind = c.choose("inner", ["mount", "mount app", "host", "plain"])
    mnt_m, t2 = mws("mount") if kind in ("mount", "mount app") else ([], [])
    rtr_m, t3 = mws("router") if kind in ("mount app", "host") else ([], [])
    rte_m, t4 = mws("route")
    ws = c.bool("websocket")

    async def endpoint(request):
        log.append(("endpoint", True))
        return PlainTextResponse("ok")

    async def ws_endpoint(socket):
        log.append(("endpoint", True))
    route = WebSocketRoute("/e", ws_endpoint, middleware=rte_m) if ws else Route("/e", endpoint, middleware=rte_m)
    if kind == "mount":
        routes, path = [Mount("/m", routes=[route], middleware=mnt_m)], "/m/e"
    elif kind == "mount app":
        routes, path = [Mount("/m", app=Router([route], middleware=rtr_m), middleware=mnt_m)], "/m/e"
    elif kind == "host":
        routes, path = [Host("h", Router([route], middleware=rtr_m))], "/e"
    else:
        routes, path = [route], "/e"
    app = Starlette(routes=routes, middleware=app_m)
    scope = http_scope(path)
    scope["headers"] = [(b"host", b"h")]
    if ws:
        scope["type"] = "websocket"
        scope["subprotocols"] = []
    send = Recorder()
    c.run(app(scope, no_receive, send))
    expect_order(c, "levels nest outside-in", log, t1 + t2 + t3 + t4, [("endpoint", True)])
    c.check("everything is built once", sorted([x[1] for x in log if x[0] == "built"]) == sorted(t1 + t2 + t3 + t4))


class Layer:
    """an application inside n layers: the last n of those there are, in their order"""
    _ghost_ok = True

    def __init__(self, n, calls):
        self.n, self.calls = n, calls

    async def __call__(self, scope, receive, send):
        self.calls.append((self.n, scope, receive, send))


class Built:
    """how often each outer layer was built"""
    _ghost_ok = True

    def __init__(self):
        self.server_error = self.exception = 0


def inside(app):
    return app.n if isinstance(app, Layer) else 0


def any_list(c, name, calls, inner=0):
    """a list of any number of middleware; each is to be given the application inside those after it in the list (and `inner`
    further layers), and its own arguments"""
    lists = []

    def mk(c, n):
        idx = c.index(n)
        own, key = object(), object()

        def factory(app, *args, **kwargs):
            k = inside(app)
            c.check("with its own arguments", len(args) == 1 and args[0] is own and list(kwargs) == ["key"] and kwargs["key"] is key)
            c.check("built around those after it in the list", k == c.length(lists[0]) - 1 - idx + inner)
            return Layer(k + 1, calls)
        return Middleware(factory, own, key=key)
    lists.append(c.list(name, mk))
    return lists[0]


class Wrapping(Loop):
    """after i rounds the application is inside i layers"""

    def __init__(self, calls):
        self.calls, self.entered = calls, 0

    def init(self, L):
        self.entered += 1
        self.c.check("the stack is built once", self.entered == 1)
        self.names = [n for n in L.assigned if n in L.frame.f_locals and hasattr(L.vars[n], "__call__")]
        self.owner = L.frame.f_locals.get("self")
        d = getattr(self.owner, "__dict__", {})
        self.attrs = [] if self.names else [a for a in ("middleware_stack", "app") if a in d][:1]
        if len(self.names + self.attrs) != 1:
            self.c.give_up("the stack is built otherwise")

    def now(self, L):
        return L.vars[self.names[0]] if self.names else getattr(self.owner, self.attrs[0])

    def gen(self, L, i):
        x = Layer(i, self.calls)
        if self.names:
            return {self.names[0]: x}
        L.allow(self.owner, self.attrs[0])
        setattr(self.owner, self.attrs[0], x)

    def check(self, L, i):
        self.c.check("inv: one more layer in each round", inside(self.now(L)) == i)


def wrapping(c, site, calls):
    for k in range(3):
        c.loop(f"{site}#{k}", Wrapping(calls))


def any_stack(c):
    """the application's stack, for any number of middleware"""
    calls, built = [], Built()
    xs = any_list(c, "middleware", calls, inner=1)
    n = c.length(xs)
    added = c.choose("added later", [0, 1, 2])
    h = c.choose("handlers", ["none", "500", "Exception", "404", "both", "all"])
    handlers = {}
    for k, keys in ((500, ("500", "both")), (404, ("404", "both", "all")), (Exception, ("Exception", "all")), (A, ("all",))):
        if h in keys:
            handlers[k] = object()
    debug = c.bool("debug")

    def server_error(app, handler=None, debug=False):
        built.server_error += 1
        c.check("the server-error layer is outermost", inside(app) == n + added + 1)
        c.check("it has the handler of 500 or Exception", handler is handlers.get(500, handlers.get(Exception)))
        c.check("debug is passed on", debug == app_debug)
        return Layer(inside(app) + 1, calls)

    def exception(app, handlers=None, debug=False):
        built.exception += 1
        c.check("the exception layer is innermost", inside(app) == 0)
        rest = {k: v for k, v in given.items() if k not in (500, Exception)}
        got = dict(handlers or {})
        c.check("it has all other handlers", set(got) == set(rest) and all([got[k] is rest[k] for k in rest]))
        c.check("debug is passed on", debug == app_debug)
        return Layer(1, calls)

    def late(i):
        own = object()

        def factory(app, *args, **kwargs):
            c.check("with its own arguments", args == (own,) and kwargs == {"key": i})
            c.check("added middleware go outermost", inside(app) == n + 1 + i)
            return Layer(inside(app) + 1, calls)
        return factory, own
    app_debug, given = debug, dict(handlers)
    c.stub("starlette.applications:ServerErrorMiddleware", server_error)
    c.stub("starlette.applications:ExceptionMiddleware", exception)
    wrapping(c, "starlette.applications:Starlette.build_middleware_stack", calls)
    app = Starlette(middleware=xs, exception_handlers=handlers, debug=debug)
    for i in range(added):
        f, own = late(i)
        app.add_middleware(f, own, key=i)
    recv, send = object(), object()
    for k in range(2):
        scope = {"type": "http"}
        c.run(app(scope, recv, send))
        c.check("the stack is called, once per request", len(calls) == k + 1 and calls[k][1] is scope and calls[k][2] is recv and calls[k][3] is send)
        c.check("with every layer", calls[k][0] == n + added + 2)
        if k == 0:
            once = (built.server_error, built.exception)
        c.check("it is built once", (built.server_error, built.exception) == once and max(once) <= 1)
    refused = False
    try:
        app.add_middleware(late(0)[0], 0)
    except RuntimeError:
        refused = True
    c.check("additions after the start are refused", refused)


def any_levels(c):
    """route, mount and router level middleware, of any number"""
    calls = []
    xs = any_list(c, "middleware", calls)
    kind = c.choose("kind", ["route", "websocket route", "mount", "mount of routes", "router"])

    async def base(scope, receive, send):
        calls.append((0, scope, receive, send))

    class Endpoint:
        """an ASGI application as the endpoint"""

        async def __call__(self, scope, receive, send):
            calls.append((0, scope, receive, send))
    scope = {"type": "http", "method": "GET", "path": "/x", "headers": [], "path_params": {}}
    if kind == "route":
        wrapping(c, "starlette.routing:Route.__init__", calls)
        x = Route("/x", Endpoint(), middleware=xs)
    elif kind == "websocket route":
        wrapping(c, "starlette.routing:WebSocketRoute.__init__", calls)
        x = WebSocketRoute("/x", Endpoint(), middleware=xs)
        scope = {"type": "websocket", "path": "/x", "headers": [], "path_params": {}}
    elif kind == "router":
        wrapping(c, "starlette.routing:Router.__init__", calls)
        x = Router([Route("/x", Endpoint())], middleware=xs)
    else:
        wrapping(c, "starlette.routing:Mount.__init__", calls)
        x = Mount("/x", app=base, middleware=xs) if kind == "mount" else Mount("/", routes=[Route("/x", Endpoint())], middleware=xs)
    recv, send = object(), object()
    for k in range(2):
        scope = dict(scope)
        if kind == "router":
            c.run(x(scope, recv, send))
        else:
            c.run(x.handle(scope, recv, send))
        if k == 0 and not calls:
            c.check("something is called", False)
        n = calls[k][0]
        c.check("every layer is there, outermost called, once per request",
                c.all([len(calls) == k + 1, calls[k][1] is scope, calls[k][2] is recv, calls[k][3] is send, n == c.length(xs)]))


HARNESSES = [stack, levels, any_stack, any_levels]
