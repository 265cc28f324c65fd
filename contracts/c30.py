"""C30: what an application below a dispatch-function middleware receives."""
from starlette.middleware import base
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import Response

from contracts.c11 import Server, final, message, server_messages
from contracts.common import *
from engine.contract import Loop, internal

SCOPE = {"type": "http", "method": "POST", "path": "/", "headers": [], "query_string": b""}


class G:
    _ghost_ok = True
    at = None
    over = False


class PassLoop(Loop):
    """Request.stream below the middleware: from message i on; everything skipped so far was empty and not final"""

    def __init__(self, req, srv, g):
        self.req, self.srv, self.g = req, srv, g

    def init(self, L):
        if not hasattr(self.req, "_stream_consumed"):
            self.c.done()

    def gen(self, L, i):
        L.allow(self.req, "_stream_consumed", "_is_disconnected")
        self.srv.pos = self.g.start + i
        self.c.assume(self.srv.pos <= self.c.length(self.srv.msgs))
        self.req._stream_consumed = self.c.bool("consumed")
        self.g.at, self.g.over = self.srv.pos, self.req._stream_consumed
        if self.req._stream_consumed:
            self.c.assume(i > 0)
            self.c.assume(final(self.srv.msgs[self.srv.pos - 1]))
            self.c.assume(self.srv.msgs[self.srv.pos - 1].get("body", b"") == b"")
        else:
            self.c.assume(self.srv.pos < self.c.length(self.srv.msgs))

    def check(self, L, i):
        self.c.check("inv: messages read", self.srv.pos == self.g.start + i)
        if i != 0:
            m = self.srv.msgs[self.srv.pos - 1]
            self.c.check("inv: consumed exactly after the final message", final(m) == bool(self.req._stream_consumed), m)
            self.c.check("inv: only empty bodies are skipped", m["type"] == "http.request" and m.get("body", b"") == b"", m)
            if not final(m):
                self.c.assume(self.srv.pos < self.c.length(self.srv.msgs))


def attributes(o):
    return {k: v for k, v in o.__dict__.items() if "stream" not in k or k == "_stream_consumed"}


def pass_step(c):
    """a dispatch function that read nothing: the next message downstream, after any number of messages"""
    if c.mode != "proof":
        return histories(c)
    msgs = c.list("messages", message, min=1)
    srv = Server(c, msgs)
    cls = internal(c, base, "_CachedRequest", SCOPE, srv.receive)
    req = cls(SCOPE, srv.receive)
    internal(c, req, "wrapped_receive")
    g = G()
    g.start = c.int("messages already passed on", lo=0)
    c.assume(g.start < c.length(msgs))
    srv.pos = g.start
    before = attributes(req)
    c.loop("starlette.requests:Request.stream#0", PassLoop(req, srv, g))
    m = c.run(req.wrapped_receive())
    if g.at is None:
        c.done()
    after = attributes(req)
    if g.over:
        c.check("an empty final message ends the body", m["type"] == "http.request" and m["body"] == b"" and m["more_body"] is False and srv.pos == g.at)
        return
    src = msgs[g.at]
    c.check("one message is read", srv.pos == g.at + 1)
    if src["type"] == "http.disconnect":
        c.check("a disconnect is passed on", m["type"] == "http.disconnect", m)
        return
    b = src.get("body", b"")
    c.check("a request message", m["type"] == "http.request", m)
    c.check("with that chunk", m["body"] == b and (b != b"" or final(src)), m)
    c.check("final exactly when the server's is", bool(m["more_body"]) == (not final(src)), m)
    if not final(src):
        c.check("inv: the state is as before", before == after, (before, after))


OPS = ["nothing", "body", "stream", "partial stream", "body, stream", "body, body"]


async def read(request, op, log):
    if op == "nothing":
        return
    if op == "partial stream":
        it = request.stream()
        async for x in it:
            log.append(x)
            break
        await it.aclose()
    for o in op.split(", "):
        if o == "body":
            log.append(await request.body())
        elif o == "stream":
            async for x in request.stream():
                log.append(x)


def histories(c):
    """the whole middleware: a bounded exchange, every way to read in the dispatch function, every message downstream"""
    c.bound("exchanges of at most 3 messages")
    msgs = server_messages(c, 3)[:-1]
    op = c.choose("dispatch reads", OPS)
    nreq = c.choose("requests built by dispatch", ["its own", "a new Request"] if op == "nothing" else ["its own"])
    extra = c.choose("reads after the end", [1, 2])
    pos = [0]

    async def receive():
        pos[0] += 1
        return msgs[pos[0] - 1] if pos[0] <= len(msgs) else {"type": "http.disconnect"}
    read_log, got, early = [], [], [0]
    layers = c.choose("layers", [1, 2]) if op in ("nothing", "body") else 1

    async def app(scope, receive, send):
        while len(got) < 8:
            m = await receive()
            got.append(m)
            if m["type"] == "http.disconnect" or not m.get("more_body", False):
                break
        for i in range(extra):
            got.append(await receive())
        await Response("ok")(scope, receive, send)

    async def dispatch(request, call_next):
        try:
            await read(request, op, read_log)
        except ClientDisconnect:
            pass
        early[0] = pos[0]
        return await call_next(request)
    inner = app
    if layers == 2:
        async def plain(request, call_next):
            return await call_next(request)
        inner = BaseHTTPMiddleware(app, plain)
    mw = BaseHTTPMiddleware(inner, dispatch)
    rec = Recorder()
    c.run(mw(dict(SCOPE), receive, rec), loop=True)
    gone = msgs[-1]["type"] == "http.disconnect"
    bodies = [m.get("body", b"") for m in msgs if m["type"] == "http.request"]
    whole = b""
    for b in bodies:
        whole = whole + b
    c.check("downstream reads up to an end", len(got) > extra, got)
    body_part, tail = got[:len(got) - extra], got[len(got) - extra:]
    c.check("afterwards only disconnects", all([m["type"] == "http.disconnect" for m in tail]), got)
    ended = body_part[-1]
    if op.startswith("body"):
        if gone:
            c.check("the disconnect is passed on", len(body_part) == 1 and ended["type"] == "http.disconnect", got)
        else:
            c.check("the whole body in one message", len(body_part) == 1 and ended["type"] == "http.request" and ended["body"] == whole, got)
        return
    if op == "stream":
        if gone:
            c.check("the disconnect is passed on", len(body_part) == 1 and ended["type"] == "http.disconnect", got)
        else:
            c.check("one empty final body", len(body_part) == 1 and ended["type"] == "http.request" and ended["body"] == b"", got)
        return
    if op == "partial stream" and early[0] == len(msgs):
        # the last message was read by the dispatch function
        if gone:
            c.check("the disconnect is passed on", len(body_part) == 1 and ended["type"] == "http.disconnect", got)
        else:
            c.check("one empty final body", len(body_part) == 1 and ended["type"] == "http.request" and ended["body"] == b"", got)
        return
    rest = [b for b in bodies[early[0]:] if b != b""]
    if gone:
        c.check("the disconnect is passed on", ended["type"] == "http.disconnect", got)
        body_part = body_part[:-1]
    else:
        c.check("the body ends", ended["type"] == "http.request" and not ended.get("more_body", False), got)
    sent = [m["body"] for m in body_part if m["body"] != b""]
    c.check("exactly the server's chunks in order", len(sent) == len(rest) and c.all([a == b for a, b in zip(sent, rest)]), got)
    c.check("the response is relayed", rec.sent[0]["type"] == "http.response.start" and rec.sent[0]["status"] == 200, rec.sent)


def other_scopes(c):
    """anything but http passes untouched"""
    t = c.choose("type", ["websocket", "lifespan"])
    app = App()
    rec = Recorder()

    async def dispatch(request, call_next):
        c.fail("dispatch called for " + t)
    scope = {"type": t}
    c.run(BaseHTTPMiddleware(app, dispatch)(scope, no_receive, rec))
    c.check("passed on unchanged", len(app.calls) == 1 and app.calls[0][0] is scope and app.calls[0][1] is no_receive and app.calls[0][2] is rec)


HARNESSES = [pass_step, histories, other_scopes]
OPTS = {"histories": {"weight": 5}}
