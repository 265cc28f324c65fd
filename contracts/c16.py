"""C16: compression."""
import gzip

from starlette.middleware.gzip import GZipMiddleware

from contracts.common import *
from engine.contract import raises

SITE = "contracts.c16:Producer.__call__#0"


class Client:
    """the server's side: what it is sent, put together"""
    _ghost_ok = True

    def __init__(self, c):
        self.c, self.n, self.body, self.start, self.more = c, 0, b"", None, None

    async def send(self, message):
        if self.start is None:
            self.c.check("the start comes first", message["type"] == "http.response.start", message)
            self.start = message
            self.headers = list(message.get("headers", []))
            return
        self.c.check("then body messages", message["type"] == "http.response.body", message)
        self.n = self.n + 1
        self.body = self.body + message.get("body", b"")
        self.more = message.get("more_body", False)


class Producer:
    """an application: a start, a first body message, and, of a stream, any number of further ones and a last one"""
    _ghost_ok = True

    def __init__(self, c, client, start, first, middle=None, last=None):
        self.c, self.client, self.start, self.first, self.middle, self.last = c, client, start, first, middle, last
        self.total, self.sent, self.calls = b"", 0, []

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive))
        await send(self.start)
        await self.tell(send, self.first, self.middle is not None)
        if self.middle is None:
            return
        for chunk in self.middle:
            await self.tell(send, chunk, True)
        await self.tell(send, self.last, False)

    async def tell(self, send, chunk, more):
        m = {"type": "http.response.body"}
        if chunk is not None:
            m["body"] = chunk
            self.total = self.total + chunk
        if more:
            m["more_body"] = True
        self.sent = self.sent + 1
        await send(m)
        self.c.check("every body message is passed on at once", self.client.n == self.sent, (self.client.n, self.sent))
        self.c.check("the last one is marked as the last", bool(self.client.more) == more, self.client.more)


class Chunks(Loop):
    """streaming: what the client has is what the application sent, or the pieces of one open gzip stream fed with it"""

    def __init__(self, p):
        self.p = p

    def streams(self):
        from engine import core
        return core.C.gzips

    def init(self, L):
        self.gz = self.streams()
        if len(self.gz) > 1:
            self.c.give_up("several compressed streams")

    def gen(self, L, i):
        c, p = self.c, self.p
        p.total = c.bytes("total so far")
        p.sent = c.int("sent so far", 1)
        p.client.n = p.sent
        if self.packed:
            g = self.gz[0]
            L.allow(g)
            L.allow(g.fileobj)
            g.fed, g.emitted = p.total, c.bytes("emitted so far")
            p.client.body = g.emitted
        else:
            p.client.body = p.total
        return {}

    def check(self, L, i):
        c, p = self.c, self.p
        if not hasattr(self, "packed"):
            self.packed = encoded(p.client.headers) and len(self.gz) == 1 and not encoded(p.start_headers)
        c.check("inv: messages", p.client.n == p.sent and p.sent >= 1)
        if self.packed:
            g = self.gz[0]
            c.check("inv: the client has all pieces so far", p.client.body == g.emitted)
            c.check("inv: the stream was fed with everything so far", g.fed == p.total)
            c.check("inv: the stream is open, nothing is left in its buffer", not g.closed and len(g.fileobj.data) == 0 and g.fileobj.pos == 0)
        else:
            c.check("inv: the client has what was sent", p.client.body == p.total)


def encoded(headers):
    return first_header(headers, b"content-encoding") is not None


def body(c, name):
    return c.bytes(name, ex=[b"", b"x", b"hello" * 200, b"\x1f\x8b\x08\x00"]) if not c.bool(name + " omitted") else None


def request_headers(c):
    """-> does the client accept gzip?, its headers"""
    accepts = c.choose("client", ["gzip", "no gzip", "silent"])
    if accepts == "silent":
        return False, []
    if accepts == "gzip":
        return True, [(b"accept-encoding", c.choose("accepted", [b"gzip", b"gzip, deflate", b"deflate, gzip;q=0.5, br"]))]
    return False, [(b"accept-encoding", c.bytes("accepted otherwise", re="[a-f]*", ex=[b"", b"deflate", b"br"]))]


NAMES = [b"content-encoding", b"content-type", b"content-length", b"vary", b"x"]
SOME = [None, [], [(b"content-type", b"text/plain"), (b"content-length", b"5")], [(b"content-encoding", b"br")], [(b"content-type", b"text/event-stream; charset=utf-8")]]


def exchange(c, stream, focus):
    """one response; focus: what is arbitrary of it, its body or its headers"""
    headers_by_contract(c, ordered=False)
    if focus == "body":
        accepts, request = request_headers(c)
        given = c.choose("headers", SOME)
    else:
        accepts, request = True, [(b"accept-encoding", b"gzip")]
        given = raw_list(c, "headers", NAMES)
        if c.bool("event stream"):
            given = given + [(b"content-type", b"text/event-stream" + c.bytes("type parameters", ex=[b"", b"; charset=utf-8"]))]
    start = {"type": "http.response.start", "status": c.int("status", 200, 599, ex=[200])}
    if given is not None:
        start["headers"] = list(given)
    before = [] if given is None else list(given)
    status = start["status"]
    minimum = c.int("minimum size", 0, 10000, ex=[0, 1, 2, 500])
    client = Client(c)
    if stream and focus == "body":
        app = Producer(c, client, start, body(c, "first"), c.list("middle", lambda c, n: body(c, n)), body(c, "last"))
    elif stream:
        app = Producer(c, client, start, c.bytes("first", ex=[b"", b"a"]), [], b"b")
    elif focus == "body":
        app = Producer(c, client, start, body(c, "body"))
    else:
        app = Producer(c, client, start, c.bytes("body", ex=[b"", b"hello" * 200]))
    app.start_headers = before
    c.loop(SITE, Chunks(app))
    scope = {"type": "http", "method": "GET", "path": "/", "headers": request}
    c.run(GZipMiddleware(app, minimum_size=minimum)(scope, no_receive, client.send))
    c.check("the application runs once, with the caller's scope and receive", len(app.calls) == 1 and app.calls[0][0] is scope and app.calls[0][1] is no_receive)
    c.check("the status", client.start["status"] == status)
    return accepts, before, minimum, app, client


def judge(c, accepts, before, minimum, app, client, stream):
    what = aspect(c, "body", "encoding", "vary", "headers")
    got = list(client.headers)
    content_type = first_header(before, b"content-type")
    already = encoded(before)
    excluded = content_type is not None and content_type.startswith("text/event-stream")
    small = not stream and len(app.total) < minimum
    if already or excluded or small or not accepts:
        if "body" in what:
            c.check("delivered unchanged", client.body == app.total, (client.body, app.total))
        if "headers" in what:
            if already or excluded or small:
                same_list(c, "with its headers", got, before)
            else:
                same_list(c, "with its headers, apart from Vary", h_del(got, b"vary"), h_del(before, b"vary"))
        return
    if not encoded(got):
        if "body" in what:
            # (only of a body that is its own gzip encoding)
            bad, decoded = raises(lambda: gzip.decompress(client.body), OSError, EOFError)
            c.check("every other response is encoded", not bad and decoded == app.total, (client.body, decoded))
        return
    if "body" in what:
        bad, decoded = raises(lambda: gzip.decompress(client.body), OSError, EOFError)
        c.check("the body decodes to the application's body", not bad and decoded == app.total, (client.body, decoded))
    if "encoding" in what:
        same_list(c, "encoded as gzip, said once", h_values(got, b"content-encoding"), [b"gzip"])
        lengths = h_values(got, b"content-length")
        if stream:
            same_list(c, "no length is claimed for a stream", lengths, [])
        else:
            same_list(c, "the length is the compressed length", lengths, [str(len(client.body)).encode("ascii")])
    if "vary" in what:
        vary = first_header(got, b"vary")
        c.check("the response varies with Accept-Encoding", vary is not None and "Accept-Encoding" in vary, vary)
        old = first_header(before, b"vary")
        c.check("and with what it varied before", old is None or old in vary, (old, vary))
    if "headers" in what:
        for name in (b"content-encoding", b"content-length", b"vary"):
            got, before = h_del(got, name), h_del(before, name)
        same_list(c, "the other headers", got, before)


def complete_body(c):
    """a response of one body message: any body, any client"""
    accepts, before, minimum, app, client = exchange(c, False, "body")
    c.check("one body message", client.n == 1)
    judge(c, accepts, before, minimum, app, client, False)


def complete_headers(c):
    """a response of one body message: any headers"""
    accepts, before, minimum, app, client = exchange(c, False, "headers")
    judge(c, accepts, before, minimum, app, client, False)


def stream_body(c):
    """a response of any number of body messages"""
    accepts, before, minimum, app, client = exchange(c, True, "body")
    judge(c, accepts, before, minimum, app, client, True)


def stream_headers(c):
    """a streaming response: any headers"""
    accepts, before, minimum, app, client = exchange(c, True, "headers")
    judge(c, accepts, before, minimum, app, client, True)


def other_types(c):
    """anything but HTTP is left alone"""
    calls = []

    async def app(scope, receive, send):
        calls.append((scope, receive, send))
    scope = {"type": c.choose("type", ["websocket", "lifespan"]), "headers": [(b"accept-encoding", b"gzip")]}
    send = Recorder()
    c.run(GZipMiddleware(app)(scope, no_receive, send))
    c.check("passed on", len(calls) == 1 and calls[0][0] is scope and calls[0][1] is no_receive and calls[0][2] is send)


HARNESSES = [complete_body, complete_headers, stream_body, stream_headers, other_types]
