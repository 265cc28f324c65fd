"""C08: streaming responses."""
import anyio

from starlette.background import BackgroundTask
from starlette.concurrency import iterate_in_threadpool
from starlette.requests import ClientDisconnect
from starlette.responses import StreamingResponse

from contracts.common import *
from engine.contract import internal

SEND = "starlette.responses:StreamingResponse.stream_response#0"
NEXT = "starlette.concurrency:iterate_in_threadpool#0"
LISTEN = "starlette.responses:StreamingResponse.listen_for_disconnect#0"
NEW = [None, "2.4", "2.5", "2.10", "3.0"]
OLD = [None, "2.0", "2.3"]


class Err(Exception):
    pass


def chunk(c, n):
    return c.str(n, ex=["", "a", "\u00e9", "\u20ac"], alpha=2) if c.bool(n + " is text") else c.bytes(n, ex=[b"", b"a", b"\xff"])


def encoded(x, charset="utf-8"):
    return x.encode(charset) if isinstance(x, str) else bytes(x)


def error(c, kind):
    return {"none": None, "os": OSError("gone"), "reset": ConnectionResetError(), "other": Err(), "cancelled": KeyboardInterrupt()}[kind]


class Server:
    """the server's side: judges every message against the chunks; may fail at one message"""
    _ghost_ok = True

    def __init__(self, c, chunks, status, headers, charset="utf-8", fail_at=None, fail=None):
        self.c, self.chunks, self.status, self.headers, self.charset = c, chunks, status, headers, charset
        self.n, self.failed, self.fail_at, self.fail, self.steps = 0, False, fail_at, fail, False

    async def send(self, message):
        c = self.c
        c.check("nothing is sent after a send failed", not self.failed)
        n, total = self.n, c.length(self.chunks)
        c.check("nothing is sent after the final message", n <= total + 1, message)
        if n == 0:
            c.check("the start comes first", message["type"] == "http.response.start" and message["status"] == self.status, message)
            same_list(c, "with the response's headers", list(message["headers"]), self.headers)
        elif n <= total:
            c.check("every chunk in order, encoded, not marked as the last",
                    message["type"] == "http.response.body" and message["body"] == encoded(self.chunks[n - 1], self.charset) and message["more_body"] is True, message)
        else:
            c.check("an empty final message", message["type"] == "http.response.body" and message.get("body", b"") == b"" and not message.get("more_body", False), message)
        if self.fail is not None and n == self.fail_at:
            self.failed = True
            raise self.fail
        self.n = self.n + 1
        if self.steps:
            await anyio.sleep(0)


class Sending(Loop):
    """i chunks are sent"""

    def __init__(self, srv):
        self.srv = srv

    def gen(self, L, i):
        self.srv.n = i + 1
        if self.srv.fail is not None:
            self.c.assume(self.srv.fail_at > i)
        return {}

    def check(self, L, i):
        self.c.check("inv: messages sent", self.srv.n == i + 1 and not self.srv.failed)


class Latin(StreamingResponse):
    charset = "latin-1"


def background(c, srv, ran):
    async def work():
        ran.append(srv.n)
    return BackgroundTask(work)


def streamed(c):
    """a server that signals a disconnect by failing sends: any chunks of an async iterator"""
    latin = c.bool("another charset")
    chunks = c.list("chunks", lambda c, n: (c.str(n, ex=["", "\u00e9"], alpha=1) if latin else chunk(c, n)))
    status = c.int("status", 100, 599, ex=[200])
    ends = c.choose("iterator ends", ["normally", "with an error"])
    err = Err() if ends == "with an error" else None
    fail = error(c, c.choose("send fails", ["none", "os", "reset", "other", "cancelled"]) if err is None else "none")
    fail_at = c.int("at message", 0, ex=[0, 1, 2]) if fail is not None else None
    ran = []
    resp = (Latin if latin else StreamingResponse)(c.stream(chunks, err), status_code=status, headers={"x": "y"}, media_type="text/plain")
    c.check("nothing runs before the response is sent", ran == [])
    srv = Server(c, chunks, status, [(b"x", b"y"), (b"content-type", b"text/plain; charset=" + (b"latin-1" if latin else b"utf-8"))],
                 "latin-1" if latin else "utf-8", fail_at, fail)
    if c.bool("background"):
        resp.background = background(c, srv, ran)
        expect = [True]
    else:
        expect = []
    c.loop(SEND, Sending(srv))
    version = c.choose("spec version", NEW[1:])
    raised = None
    try:
        c.run(resp({"type": "http", "asgi": {"version": "3.0", "spec_version": version}}, no_receive, srv.send))
    except (Err, ClientDisconnect, OSError, KeyboardInterrupt) as e:
        raised = e
    total = c.length(chunks)
    if fail is not None and fail_at <= total + 1:
        if isinstance(fail, OSError):
            c.check("an OS error of the server is a disconnect", isinstance(raised, ClientDisconnect), raised)
        else:
            c.check("any other failure is raised", raised is fail, raised)
        c.check("no background work after a failure", ran == [])
    elif err is not None:
        c.check("the iterator's error is raised", raised is err, raised)
        c.check("no final message after it", srv.n == total + 1)
        c.check("no background work after a failure", ran == [])
    else:
        c.check("the response succeeds", raised is None, raised)
        c.check("everything is sent", srv.n == total + 2)
        c.check("the background work runs once, at the end", len(ran) == len(expect) and c.all([x == total + 2 for x in ran]), ran)


class Items:
    """an iterator (of the application, run in threads)"""
    _ghost_ok = True

    def __init__(self, c, items, end):
        self.c, self.items, self.end, self.pos, self.over = c, items, end, 0, False

    def __iter__(self):
        return self

    def __next__(self):
        self.c.check("an exhausted iterator is left alone", not self.over)
        if self.pos < self.c.length(self.items):
            x = self.items[self.pos]
            self.pos = self.pos + 1
            return x
        self.over = True
        if self.end is not None:
            raise self.end
        raise StopIteration


class Pulling(Loop):
    """i items are pulled and passed on"""

    def __init__(self, it):
        self.it = it

    def gen(self, L, i):
        self.it.pos = i
        self.c.assume(i <= self.c.length(self.it.items))
        return {}

    def check(self, L, i):
        self.c.check("inv: one item is pulled per step", self.it.pos == i and not self.it.over)


def pulled(c):
    """items of a synchronous iterator are passed on one by one"""
    items = c.list("items", lambda c, n: c.bytes(n))
    end = c.choose("ends", [None, Err()])
    it = Items(c, items, end)
    c.loop(NEXT, Pulling(it))
    agen = iterate_in_threadpool(it)
    c.check("nothing is pulled early", it.pos == 0)
    n = c.length(items)
    while True:
        at = it.pos
        raised, over = None, False
        try:
            x = c.run(agen.__anext__())
        except StopAsyncIteration:
            over = True
        except Err as e:
            raised = e
        if over or raised is not None:
            break
        if c.mode == "proof":
            at = it.pos - 1
        c.check("each item once, in order", at < n and it.pos == at + 1 and x == items[at], (at, x))
    c.check("up to the end", it.pos == n and it.over)
    c.check("a failure of the iterator is raised", raised is end, raised)


def kinds(c):
    """what is streamed: sync and async iterables, chunks of every type; one end-to-end exchange"""
    c.bound("up to 3 chunks")
    k = c.choose("count", [0, 1, 2, 3])
    made = []
    for i in range(k):
        kind = c.choose(f"kind {i}", ["bytes", "str", "memoryview"])
        made.append(c.str(f"t{i}", alpha=2, ex=["", "\u20ac"]) if kind == "str" else c.bytes(f"b{i}", ex=[b"", b"x"]) if kind == "bytes" else memoryview(b"mv%d" % i))
    how = c.choose("iterable", ["async generator", "async iterator", "generator", "list", "iterator"])

    async def agen():
        for x in made:
            yield x

    class AIter:
        def __init__(self):
            self.i = 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            if self.i == len(made):
                raise StopAsyncIteration
            self.i += 1
            return made[self.i - 1]
    content = {"async generator": agen, "async iterator": AIter, "generator": lambda: (x for x in made), "list": lambda: list(made), "iterator": lambda: iter(made)}[how]()
    resp = StreamingResponse(content)
    srv = Server(c, made, 200, [])
    ran = []
    resp.background = background(c, srv, ran)
    c.run(resp({"type": "http", "asgi": {"version": "3.0", "spec_version": "2.4"}}, no_receive, srv.send))
    c.check("everything is sent", srv.n == k + 2)
    c.check("then the background work runs", ran == [k + 2], ran)


class Listening(Loop):
    """i messages are read, none of them a disconnect"""

    def __init__(self, c, msgs, g):
        self.msgs, self.g = msgs, g

    def gen(self, L, i):
        self.c.assume(i < self.c.length(self.msgs))
        self.g.pos = i
        return {}

    def check(self, L, i):
        self.c.check("inv: messages read", self.g.pos == i)
        if i != 0:
            self.c.check("inv: none a disconnect", self.msgs[i - 1]["type"] != "http.disconnect")


class Channel:
    _ghost_ok = True

    def __init__(self, c, msgs):
        self.c, self.msgs, self.pos = c, msgs, 0

    async def receive(self):
        if not self.pos < self.c.length(self.msgs):
            self.c.done()
        m = self.msgs[self.pos]
        self.pos = self.pos + 1
        return m


def listening(c):
    """waiting for the client's disconnect ends with it, not before"""
    msgs = c.list("messages", lambda c, n: {"type": "http.disconnect"} if c.bool(n + " disconnect") else {"type": "http.request", "body": c.bytes(n + " body")}, min=1)
    chan = Channel(c, msgs)
    f = internal(c, StreamingResponse(c.stream([])), "listen_for_disconnect", chan.receive)
    c.loop(LISTEN, Listening(c, msgs, chan))
    c.run(f(chan.receive))
    c.check("it ends with the first disconnect", msgs[chan.pos - 1]["type"] == "http.disconnect")


def older(c):
    """a server that cannot signal a disconnect: the real task group, the client disconnecting before any message"""
    c.bound("up to 2 chunks; the disconnect comes with one of the messages, between two of them or never")
    k = c.choose("count", [0, 1, 2])
    made = [chunk(c, f"x{i}") for i in range(k)]
    ends = c.choose("the iterator then", ["ends", "waits for ever", "fails"])
    gone = c.choose("disconnect after message", [None] + list(range(k + 2))) if ends != "waits for ever" else c.choose("disconnect after message", list(range(k + 1)))
    sync = ends == "ends" and c.bool("sync iterator")
    fail_at = c.choose("send fails at", [None] + list(range(k + 2))) if gone is None and ends == "ends" else None
    state = {"over": False}
    err, fail = Err(), Err()

    async def agen():
        for x in made:
            yield x
        if ends == "waits for ever":
            await anyio.sleep_forever()
        if ends == "fails":
            raise err
    srv = Server(c, made, 200, [], fail_at=fail_at, fail=fail if fail_at is not None else None)
    srv.steps = True
    wait = []

    async def send(message):
        await srv.send(message)
        if gone is not None and srv.n == gone + 1:
            c.check("nothing is sent after the disconnect was seen", not state["over"])
            wait[0].set()

    async def receive():
        if state["over"]:
            return {"type": "http.disconnect"}
        if not state.get("body"):
            state["body"] = True
            return {"type": "http.request", "body": b"", "more_body": False}
        await wait[0].wait()
        state["over"] = True
        state["seen at"] = srv.n
        return {"type": "http.disconnect"}
    ran = []
    content = (x for x in made) if sync else agen()
    resp = StreamingResponse(content, background=background(c, srv, ran))
    asgi = c.choose("version", OLD)

    async def main():
        wait.append(anyio.Event())
        scope = {"type": "http", "asgi": {"version": "3.0", **({"spec_version": asgi} if asgi else {})}}
        if asgi is None and c.bool("no asgi key"):
            del scope["asgi"]
        await resp(scope, receive, send)
    raised = None
    try:
        c.run(main(), loop=True)
    except Err as e:
        raised = e
    if fail_at is not None:
        c.check("the failure is raised as it is", raised is fail, raised)
        c.check("no background work after a failure", ran == [], ran)
    elif gone is not None:
        if ends == "fails" and raised is not None:
            c.check("no background work after a failure", raised is err and ran == [], ran)
        else:
            c.check("the response ends", raised is None, raised)
        if "seen at" in state:
            c.check("streaming stops", srv.n <= state["seen at"] + 1, (srv.n, state["seen at"]))
        if ends == "waits for ever":
            c.check("the disconnect is noticed", "seen at" in state)
    elif ends == "fails":
        c.check("the iterator's error is raised", raised is err, raised)
        c.check("no background work after a failure", ran == [], ran)
        c.check("no final message", srv.n == k + 1)
    else:
        c.check("the response succeeds", raised is None, raised)
        c.check("everything is sent", srv.n == k + 2)
        c.check("then the background work runs", ran == [k + 2], ran)


HARNESSES = [streamed, pulled, kinds, listening, older]
