"""C11: reading the request body."""
import json

from starlette.requests import ClientDisconnect, Request

from contracts.common import *
from engine.contract import Loop

SCOPE = {"type": "http", "method": "POST", "path": "/", "headers": [], "query_string": b""}


def message(c, n):
    """any message a server may deliver on a request's receive channel"""
    if c.bool(n + " disconnect"):
        return {"type": "http.disconnect"}
    m = {"type": "http.request"}
    if c.bool(n + " has body"):
        m["body"] = c.bytes(n + " body", ex=[b"", b"a", b"bc"])
    mb = c.choose(n + " more_body", ["absent", False, True])
    if mb != "absent":
        m["more_body"] = mb
    return m


class Server:
    _ghost_ok = True

    def __init__(self, c, msgs):
        self.c, self.msgs, self.pos = c, msgs, 0

    async def receive(self):
        self.c.check("the server is not read past the last message", self.pos < self.c.length(self.msgs))
        m = self.msgs[self.pos]
        self.pos = self.pos + 1
        return m


def final(m):
    return m["type"] == "http.request" and not m.get("more_body", False)


async def collect(ait):
    out = []
    async for x in ait:
        out.append(x)
    return out


class StreamLoop(Loop):
    """at the loop head: i messages read, all of them non-final unless the stream is marked consumed"""

    def __init__(self, req, srv, g):
        self.req, self.srv, self.g = req, srv, g

    def init(self, L):
        if not hasattr(self.req, "_stream_consumed"):
            self.c.done()

    def gen(self, L, i):
        L.allow(self.req, "_stream_consumed", "_is_disconnected")
        self.srv.pos = i
        self.c.assume(i <= self.c.length(self.srv.msgs))
        self.req._stream_consumed = self.c.bool("consumed")
        self.g.start, self.g.consumed = i, self.req._stream_consumed
        if self.req._stream_consumed:
            self.c.assume(i > 0)
            self.c.assume(final(self.srv.msgs[i - 1]))
        else:
            self.c.assume(i < self.c.length(self.srv.msgs))

    def check(self, L, i):
        self.c.check("inv: messages read", self.srv.pos == i)
        if i != 0:
            m = self.srv.msgs[i - 1]
            self.c.check("inv: consumed exactly after the final message", final(m) == bool(self.req._stream_consumed), m)
            self.c.check("inv: requests only", m["type"] == "http.request")
            if not final(m):
                self.c.assume(i < self.c.length(self.srv.msgs))       # the server's side: a final message or a disconnect follows


class G:
    _ghost_ok = True
    start = None
    consumed = False


def stream_step(c):
    """streaming any number of messages, one loop iteration at a time"""
    if c.mode != "proof":
        return streaming(c)
    msgs = c.list("messages", message, min=1)
    srv = Server(c, msgs)
    req = Request(SCOPE, srv.receive)
    g = G()
    c.loop("starlette.requests:Request.stream#0", StreamLoop(req, srv, g))
    it = req.stream()
    err = chunk = None
    try:
        chunk = c.run(it.__anext__())
    except ClientDisconnect as e:
        err = e
    if g.start is None:
        c.done()
    if g.consumed:
        c.check("after the final message one empty chunk ends the stream", chunk == b"" and srv.pos == g.start)
        ended = False
        try:
            c.run(it.__anext__())
        except StopAsyncIteration:
            ended = True
        c.check("then the stream ends, reading nothing more", ended and srv.pos == g.start)
        return
    m = msgs[g.start]
    c.check("one message is read", srv.pos == g.start + 1)
    if m["type"] == "http.disconnect":
        c.check("a disconnect is reported", err is not None)
        return
    c.check("no error on a body message", err is None)
    b = m.get("body", b"")
    if b != b"":
        c.check("a non-empty body is one chunk", chunk == b, (chunk, b))
    else:
        c.check("an empty body yields no chunk of its own", chunk == b"" and final(m))
    # resuming continues at the loop head (checked against the invariant)
    try:
        c.run(it.__anext__())
    except (StopAsyncIteration, ClientDisconnect):
        pass


class BodyLoop(Loop):
    def __init__(self, chunks):
        self.chunks = chunks

    def gen(self, L, i):
        from engine.seq import VList
        return {"chunks": VList([L.seg.sub(L.seg.lo, self.z(i))])}

    def z(self, i):
        from engine.core import zi
        return zi(i)

    def check(self, L, i):
        from engine.seq import VList, Seg
        xs = L.vars["chunks"]
        if not isinstance(xs, (VList, list)):
            self.c.done()
        n = len(xs) if isinstance(xs, list) else xs.length()
        self.c.check("inv: one entry per chunk", n == i)
        if isinstance(xs, VList) and len(xs.parts) == 2:
            self.c.check("inv: the newest chunk is last", xs.parts[1] == self.chunks[i - 1])


def body_of_stream(c):
    """body() concatenates exactly what stream() yields, for streams of any length"""
    if c.mode != "proof":
        return streaming(c)
    chunks = c.list("chunks", lambda c, n: c.bytes(n))
    if not hasattr(Request, "stream"):
        c.done()

    async def refuse():
        c.done()
    from engine.seq import AsyncAbs, join_seq
    from engine.core import lift
    c.stub("starlette.requests:Request.stream", lambda self: AsyncAbs(chunks))
    c.loop("starlette.requests:Request.body#0", BodyLoop(chunks))
    req = Request(SCOPE, refuse)
    got = c.run(req.body())
    c.check("the body is the concatenation of the chunks", got == join_seq(lift(b""), chunks))
    c.check("reading again returns the same bytes", c.run(req.body()) == got)


def server_messages(c, limit):
    """a complete exchange: the last message is final or a disconnect"""
    n = c.choose("messages before the last", list(range(limit)))
    out = []
    for i in range(n):
        m = {"type": "http.request", "more_body": True}
        if c.bool(f"has body {i}"):
            m["body"] = c.bytes(f"body {i}", ex=[b"", b"a", b"bc"])
        out.append(m)
    if c.bool("client disconnects"):
        out.append({"type": "http.disconnect"})
    else:
        m = {"type": "http.request"}
        if c.bool("has body"):
            m["body"] = c.bytes("body", ex=[b"", b"z"])
        if c.bool("explicit end"):
            m["more_body"] = False
        out.append(m)
    out.append({"type": "http.request", "body": b"beyond the end"})
    return out


def streaming(c):
    """one whole stream() or body() over a bounded exchange"""
    c.bound("exchanges of at most 4 messages")
    msgs = server_messages(c, 4)
    n = len(msgs) - 1
    pos = [0]

    async def receive():
        pos[0] += 1
        return msgs[pos[0] - 1]
    req = Request(SCOPE, receive)
    bodies = [m.get("body", b"") for m in msgs[:n] if m["type"] == "http.request"]
    gone = msgs[n - 1]["type"] == "http.disconnect"
    whole = b""
    for b in bodies:
        whole = whole + b
    got = []

    async def go():
        async for x in req.stream():
            got.append(x)
    if c.bool("by body()"):
        err, res = None, None
        try:
            res = c.run(req.body())
        except ClientDisconnect as e:
            err = e
        c.check("exactly the messages up to the end are read", pos[0] == n)
        if gone:
            c.check("a disconnect is reported", err is not None)
        else:
            c.check("the body is the concatenation", err is None and res == whole)
        return
    err = None
    try:
        c.run(go())
    except ClientDisconnect as e:
        err = e
    c.check("exactly the messages up to the end are read", pos[0] == n)
    want = [b for b in bodies if b != b""]
    c.check("a disconnect is reported", (err is not None) == gone)
    if not gone:
        want = want + [b""]
    c.check("every non-empty body once, in order, then one empty chunk", len(got) == len(want) and c.all([a == b for a, b in zip(got, want)]), got)


OPS = ["body", "stream", "partial", "json"]


def history(c):
    """interleavings of body(), stream(), partial streams and json() on one request"""
    c.bound("at most 3 calls over exchanges of at most 3 messages")
    msgs = server_messages(c, 3)
    n = len(msgs) - 1
    pos = [0]

    async def receive():
        pos[0] += 1
        return msgs[pos[0] - 1]
    req = Request(SCOPE, receive)
    gone = msgs[n - 1]["type"] == "http.disconnect"
    cached = None
    exhausted = False
    ended_early = False
    at = 0
    for step in range(c.choose("calls", [1, 2, 3])):
        op = c.choose("call", ["body", "stream", "partial"])
        got, err = [], None
        rest = [m.get("body", b"") for m in msgs[at:n] if m["type"] == "http.request"]
        limit = c.choose("take", [1, 2]) if op == "partial" else None

        async def go():
            if op == "body":
                got.append(await req.body())
                return
            it = req.stream()
            async for x in it:
                got.append(x)
                if limit is not None and len(got) == limit:
                    break
            await it.aclose()
        try:
            c.run(go())
        except (ClientDisconnect, RuntimeError) as e:
            err = e
        if cached is not None:
            c.check("after body() nothing is read from the server again", pos[0] == at and err is None)
            if op == "body":
                c.check("body() replays the same bytes", got[0] == cached)
            else:
                want = [cached, b""][:limit]
                c.check("stream() replays the same bytes", len(got) == len(want) and c.all([a == b for a, b in zip(got, want)]), got)
            continue
        if exhausted:
            c.check("streaming again after exhaustion is an error", isinstance(err, RuntimeError) and pos[0] == at and got == [], got)
            continue
        if ended_early:
            # the final message was delivered but the consumer stopped before the end marker
            c.check("no data is repeated and the server is not read again", pos[0] == at and c.all([x == b"" for x in got]), got)
            return
        want = [b for b in rest if b != b""]
        if op == "body":
            whole = b""
            for b in rest:
                whole = whole + b
            if gone:
                c.check("disconnect during body() is reported", isinstance(err, ClientDisconnect) and pos[0] == n)
                return
            c.check("body() returns all that was not streamed yet", err is None and got[0] == whole and pos[0] == n)
            cached, at = whole, n
            continue
        full = want + ([] if gone else [b""])
        if limit is not None and limit <= len(full):
            c.check("a partial stream yields a prefix", err is None and len(got) == limit and c.all([a == b for a, b in zip(got, full)]), got)
            if limit == len(full) and not gone:
                exhausted = True
            at = pos[0]
            c.check("never beyond the end", at <= n)
            if at == n and not exhausted:
                ended_early = True
            continue
        c.check("a disconnect is reported", isinstance(err, ClientDisconnect) == gone and (gone or err is None), err)
        c.check("stream() yields every remaining chunk once, in order", len(got) == len(full) and c.all([a == b for a, b in zip(got, full)]), got)
        c.check("exactly up to the end", pos[0] == n)
        if gone:
            return
        at, exhausted = n, True


def json_access(c):
    """json() parses the body once"""
    texts = {"[1, 2]": [1, 2], "\"\u20ac\"": "\u20ac", "null": None, "{\"a\": {}}": {"a": {}}, "0": 0}
    text = c.choose("json", list(texts))
    data = text.encode("utf-8")
    cut = c.choose("cut", [0, 1, 2])
    msgs = [{"type": "http.request", "body": data[:cut], "more_body": True}, {"type": "http.request", "body": data[cut:]}]
    pos = [0]

    async def receive():
        pos[0] += 1
        return msgs[pos[0] - 1]
    req = Request(SCOPE, receive)
    for i in range(3):
        op = c.choose("call", ["json", "body", "stream"] if i else ["json", "body"])
        if op == "json":
            c.check("json() decodes the body", c.run(req.json()) == texts[text])
        elif op == "body":
            c.check("body() is the whole body", c.run(req.body()) == data)
        else:
            c.check("stream() replays it", c.run(collect(req.stream())) == [data, b""])
        c.check("the server is read once", pos[0] == 2)


HARNESSES = [stream_step, body_of_stream, streaming, history, json_access]
OPTS = {"history": {"weight": 5}}
