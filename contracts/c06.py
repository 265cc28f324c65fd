"""C06: ServerErrorMiddleware."""
import html

from starlette.middleware.errors import ServerErrorMiddleware
from starlette.requests import Request

from contracts.common import *
from engine.contract import internal
from contracts.c05 import Resp, throwing_app

MSGS = {
    "start": {"type": "http.response.start", "status": 200, "headers": []},
    "body": {"type": "http.response.body", "body": b"x", "more_body": True},
    "end": {"type": "http.response.body", "body": b"y"},
    "debug": {"type": "http.response.debug", "info": {}},
}


class Boom(Exception):
    pass


class Odd(Exception):
    def __str__(self):
        return "<script>" + self.args[0]


def http_scope(headers=()):
    return {"type": "http", "method": "GET", "path": "/", "headers": list(headers), "query_string": b""}


def errors(c):
    """any application messages before the failure; default, custom and failing handlers"""
    log = []
    secret = c.str("secret", ex=["s3cret", "<b>", "Internal"])
    exc = c.choose("exception", [None, "boom", "odd", "base"])
    exc = {None: None, "boom": Boom(secret), "odd": Odd(secret), "base": SystemExit(3)}[exc]
    before = [MSGS[k] for k in c.choose("messages before", [[], ["debug"], ["start"], ["start", "body"], ["debug", "start", "body", "end"]])]
    kind = c.choose("handler", [None, "sync", "async", "object"])

    def sync(request, e):
        log.append(("handler", request, e))
        return Resp("h", log)

    async def coro(request, e):
        log.append(("handler", request, e))
        return Resp("h", log)

    class Obj:
        async def __call__(self, request, e):
            return await coro(request, e)
    h = {None: None, "sync": sync, "async": coro, "object": Obj()}[kind]
    app = throwing_app(c, exc, before, log)
    mw = ServerErrorMiddleware(app, handler=h) if c.bool("default debug") else ServerErrorMiddleware(app, handler=h, debug=False)
    scope = http_scope()
    send = Recorder()
    raised = None
    try:
        c.run(mw(scope, no_receive, send))
    except BaseException as e:
        raised = e
    n = len(before)
    c.check("the application runs once", len([x for x in log if x[0] == "app"]) == 1 and log[0][1] is scope and log[0][2] is no_receive)
    c.check("messages of the application are passed through unchanged and in order",
            len(send.sent) >= n and all([a is b for a, b in zip(send.sent[:n], before)]))
    handled = [x for x in log if x[0] == "handler"]
    c.check("the original exception is always re-raised", raised is exc, raised)
    started = any([m["type"] == "http.response.start" for m in before])
    rest = send.sent[n:]
    if exc is None or not isinstance(exc, Exception):
        c.check("nothing is added without an error", rest == [] and handled == [])
        return
    if h is not None:
        c.check("the handler is called once with the exception", len(handled) == 1 and handled[0][2] is exc)
        c.check("and with the request", isinstance(handled[0][1], Request) and handled[0][1].scope is scope)
    if started:
        c.check("no error response after the response started", rest == [], rest)
        return
    c.check("exactly one error response", len(rest) == 2 and rest[0]["type"] == "http.response.start" and rest[1]["type"] == "http.response.body", rest)
    if h is not None:
        c.check("the handler's response is sent", rest[0].get("tag") == "h")
    else:
        c.check("the default response is a fixed 500 text", rest[0]["status"] == 500 and rest[1]["body"] == b"Internal Server Error", rest)
        c.check("with fixed headers", dict(rest[0]["headers"]) == {b"content-length": b"21", b"content-type": b"text/plain; charset=utf-8"}, rest)


def server_fails(c):
    """the server's send raises while a message of the application is being sent"""
    at = c.choose("failing message", [0, 1, 2])
    msgs = [MSGS[k] for k in c.choose("messages", [["start", "body", "end"], ["debug", "start", "end"], ["start", "end"]])]
    lost = OSError("connection lost")
    caught = c.bool("application swallows the failure and raises")
    later = Boom("later")
    handler = c.bool("handler")
    debug = c.bool("debug")
    log = []
    seen = []

    async def send(message):
        seen.append(message)
        if len(seen) == at + 1:
            raise lost

    async def app(scope, receive, send):
        try:
            for m in msgs:
                await send(m)
        except OSError:
            if caught:
                raise later
            raise

    async def h(request, exc):
        return Resp("h", log)
    raised = None
    try:
        c.run(ServerErrorMiddleware(app, handler=h if handler else None, debug=debug)(http_scope(), no_receive, send))
    except Exception as e:
        raised = e
    if at >= len(msgs):
        c.check("no error", raised is None and len(seen) == len(msgs))
        return
    c.check("the application's exception is re-raised", raised is (later if caught else lost), raised)
    starts = [m for m in seen if m["type"] == "http.response.start"]
    c.check("the response is started at most once", len(starts) == 1, seen)
    c.check("nothing follows a started response", seen[:at + 1] == msgs[:at + 1] and
            (len(seen) == at + 1 or MSGS["start"] not in msgs[:at + 1]), seen)


def other_scope(c):
    """other connections pass through"""
    log = []
    exc = c.choose("exc", [None, Boom("x")])
    h = c.bool("handler")
    scope = {"type": c.choose("type", ["lifespan", "websocket"])}
    send = Recorder()
    raised = None
    mw = ServerErrorMiddleware(throwing_app(c, exc, [{"type": "m"}], log), handler=(lambda r, e: log.append(("handler",))) if h else None,
                               debug=c.bool("debug"))
    try:
        c.run(mw(scope, no_receive, send))
    except Exception as e:
        raised = e
    c.check("other scopes are untouched", raised is exc and send.sent == [{"type": "m"}] and len(log) == 1)


MARK = "<&q7'\"x>"


def debug_page(c):
    """debug responses: HTML only when accepted, and no unescaped exception-derived text"""
    which = c.choose("exception", ["message", "type name", "function", "cause", "local"])
    text = c.choose("text", [MARK, "<script>alert(1)</script>", "a<b>c"])

    async def app(scope, receive, send):
        if which == "message":
            raise Boom(text)
        if which == "type name":
            raise type(text, (Exception,), {})("m")
        if which == "function":
            def f():
                raise Boom("m")
            f.__code__ = f.__code__.replace(co_name=text)
            f()
        if which == "cause":
            try:
                raise Boom(text)
            except Boom as e:
                raise ValueError("other") from e
        if which == "local":
            local = text
            raise Boom("m" + local)
    accept = c.choose("accept", [None, "text/html", "text/html,application/xml", "application/json", "text/plain"])
    scope = http_scope([(b"accept", accept.encode())] if accept else [])
    send = Recorder()
    raised = None
    try:
        c.run(ServerErrorMiddleware(app, debug=True)(scope, no_receive, send))
    except Exception as e:
        raised = e
    c.check("re-raised in debug mode", raised is not None)
    status, headers, body = one_response(c, "debug", send.sent)
    c.check("status 500", status == 500)
    ct = hdr(headers, b"content-type")[0]
    if accept and "text/html" in accept:
        c.check("html when accepted", ct.startswith(b"text/html"))
        page = body.decode("utf-8")
        c.check("exception-derived text is escaped", text not in page, which)
        if which in ("message", "local"):
            c.check("and present in escaped form", html.escape(text) in page or html.escape(html.escape(text)) in page)
    else:
        c.check("plain text otherwise", ct.startswith(b"text/plain"), ct)


class Frame:
    pass


def mkframe(line, fn, name, lineno):
    f = Frame()
    f.filename, f.lineno, f.function = fn, lineno, name
    f.code_context = None if line is None else [line]
    f.index = None if line is None else 0
    return f


def fragment(c):
    """a page fragment is the fixed template with the frame's texts inserted only in escaped form"""
    line = c.str("line", ex=["x < y", MARK]) if c.bool("context") else None
    fn, name = c.str("filename", ex=[MARK, "a.py"]), c.str("function", ex=["<module>", MARK])
    mw = ServerErrorMiddleware(App(), debug=True)
    frag = internal(c, mw, "generate_frame_html", None, True)
    collapsed = c.choose("collapsed", [True, False])
    page = frag(mkframe(line, fn, name, 7), collapsed)
    fixed = frag(mkframe(None if line is None else "QQline", "QQfile", "QQname", 7), collapsed)
    alts = []
    for q in (True, False):
        want = ""
        rest = fixed
        while rest:
            pos, key = min([(rest.find(k) if k in rest else len(rest), k) for k in ("QQline", "QQfile", "QQname")])
            want = want + rest[:pos]
            if pos == len(rest):
                break
            text = {"QQline": line, "QQfile": fn, "QQname": name}[key]
            esc = html.escape(text, q)
            want = want + (esc.replace(" ", "&nbsp") if key == "QQline" else esc)
            rest = rest[pos + 6:]
        alts.append(page == want)
    c.check("frame texts are inserted only in escaped form", c.any(alts), page)


HARNESSES = [errors, server_fails, other_scope, debug_page, fragment]
BOUNDED = {"debug_page": "the debug page walks real interpreter frames and tracebacks; checked on enumerated hostile texts"}
OPTS = {"fragment": {"models": 0}}
