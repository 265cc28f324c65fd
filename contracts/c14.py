"""C14: WebSocketEndpoint sessions."""
import json

from starlette.endpoints import WebSocketEndpoint
from starlette.websockets import WebSocket, WebSocketDisconnect, WebSocketState

from contracts.common import *
from engine.contract import Loop


class Err(Exception):
    pass


class Server:
    def __init__(self, incoming):
        self.incoming, self.reads, self.sent = incoming, 0, []

    async def receive(self):
        self.reads += 1
        return self.incoming[self.reads - 1]

    async def send(self, message):
        self.sent.append(message)


SCOPE = {"type": "websocket", "path": "/", "headers": []}


def endpoint(log, encoding, fail_connect=None, fail_at=None, err=None, plain_connect=False, close_in=None):
    class E(WebSocketEndpoint):
        async def on_connect(self, websocket):
            log.append(("connect",))
            if fail_connect is not None:
                raise fail_connect
            await websocket.accept()

        async def on_receive(self, websocket, data):
            log.append(("receive", data))
            n = len([x for x in log if x[0] == "receive"]) - 1
            if fail_at is not None and n == fail_at:
                raise err

        async def on_disconnect(self, websocket, close_code):
            log.append(("disconnect", close_code))
    E.encoding = encoding
    if plain_connect:
        del E.on_connect
    return E


def drive(c, E, server):
    async def go():
        await E(dict(SCOPE), server.receive, server.send)
    try:
        c.run(go())
    except BaseException as e:
        if not isinstance(e, (Exception, KeyboardInterrupt)):
            raise
        return e
    return None


# ---------------------------------------------------------------- payloads
PARSES = {"1": 1, "[\"\u20ac\"]": ["\u20ac"], "{\"a\": null}": {"a": None}, "\"\"": "", "0": 0}
BROKEN = ["", "{", "[1,", "nul", "\u20ac"]


def payload(c, name, encoding):
    """-> (message, expected data or None, fails?)"""
    if encoding == "text":
        k = c.choose(name + " kind", ["text", "bytes"])
        if k == "text":
            t = c.str(name)
            return {"type": "websocket.receive", "text": t}, t, False
        return {"type": "websocket.receive", "bytes": c.bytes(name)}, None, True
    if encoding == "bytes":
        k = c.choose(name + " kind", ["bytes", "text"])
        if k == "bytes":
            b = c.bytes(name)
            return {"type": "websocket.receive", "bytes": b}, b, False
        return {"type": "websocket.receive", "text": c.str(name)}, None, True
    if encoding == "json":
        k = c.choose(name + " kind", ["text", "bytes", "both", "broken text", "broken bytes"])
        if k.startswith("broken"):
            t = c.choose(name, BROKEN)
            return {"type": "websocket.receive", **({"bytes": t.encode()} if k == "broken bytes" else {"text": t})}, None, True
        t = c.choose(name, list(PARSES))
        m = {"text": {"text": t}, "bytes": {"bytes": t.encode()}, "both": {"text": None, "bytes": t.encode()}}[k]
        return {"type": "websocket.receive", **m}, PARSES[t], False
    k = c.choose(name + " kind", ["text", "bytes", "both text", "both bytes"])
    if k in ("text", "both text"):
        t = c.str(name)
        c.assume(t != "")
        m = {"type": "websocket.receive", "text": t}
        if k == "both text":
            m["bytes"] = None
        return m, t, False
    b = c.bytes(name)
    m = {"type": "websocket.receive", "bytes": b}
    if k == "both bytes":
        m["text"] = None
    return m, b, False


def session(c):
    """whole sessions: hooks in order, decoding, end code"""
    c.bound("sessions of at most 2 data messages (3 in the thorough tier)")
    log = []
    encoding = c.choose("encoding", [None, "text", "bytes", "json"])
    n = c.choose("messages", [0, 1, 2, 3] if c.thorough else [0, 1, 2])
    msgs, datas, bad_at = [], [], None
    for i in range(n):
        m, d, bad = payload(c, f"p{i}", encoding)
        msgs.append(m)
        datas.append(d)
        if bad:
            bad_at = i
            break
    fail_at = c.choose("on_receive fails at", [None] + list(range(n)))
    code = c.choose("close code", ["absent", "none", "given"]) if bad_at is None and fail_at is None else "absent"
    cc = c.int("code", lo=1000, hi=4999, ex=[1000, 1001, 1006]) if code == "given" else None
    end = {"type": "websocket.disconnect"}
    if code == "given":
        end["code"] = cc
    elif code == "none":
        end["code"] = None
    err = Err("x")
    server = Server([{"type": "websocket.connect"}] + msgs + [end, {"type": "websocket.disconnect", "code": 4000}])
    E = endpoint(log, encoding, fail_at=fail_at, err=err, plain_connect=c.bool("default on_connect"))
    plain = "on_connect" not in E.__dict__
    raised = drive(c, E, server)
    if not plain:
        c.check("the connect hook runs first, once", log[0] == ("connect",) and len([x for x in log if x[0] == "connect"]) == 1)
        log = log[1:]
    c.check("the socket is accepted first", len(server.sent) > 0 and server.sent[0]["type"] == "websocket.accept")
    ok = len(msgs) if bad_at is None else bad_at
    failing = fail_at is not None and fail_at < ok
    k = fail_at + 1 if failing else ok
    rec = [x[1] for x in log if x[0] == "receive"]
    c.check("the receive hook runs once per message, in order", len(rec) == k, log)
    for i in range(k):
        c.check("with the payload decoded per the declared encoding", rec[i] == datas[i] and type(rec[i]) is type(datas[i]), (rec[i], datas[i]))
    dis = [x for x in log if x[0] == "disconnect"]
    c.check("the disconnect hook runs exactly once, last", len(dis) == 1 and log[-1][0] == "disconnect", log)
    closes = [m for m in server.sent if m["type"] == "websocket.close"]
    if failing:
        c.check("a failing hook ends the session with 1011 and its error propagates", raised is err and dis[0][1] == 1011)
        c.check("reading stops", server.reads == 1 + k)
    elif bad_at is not None:
        c.check("a wrong payload closes with 1003", len(closes) == 1 and closes[0]["code"] == 1003, server.sent)
        c.check("and raises", isinstance(raised, RuntimeError) and dis[0][1] == 1011, raised)
    else:
        c.check("a normal end is no error", raised is None)
        c.check("the disconnect hook gets the client's code, 1000 if none", dis[0][1] == (1000 if cc is None else cc), dis)
        c.check("nothing is read after the disconnect", server.reads == 2 + n)
        c.check("nothing is sent", len(server.sent) == 1)


class SessionLoop(Loop):
    """i messages were handled, one hook call each"""

    def __init__(self, g, upto):
        self.g, self.upto = g, upto

    def gen(self, L, i):
        self.c.assume(i <= self.upto)
        self.g.n = i
        self.g.ordered = True
        L.allow(self.g)
        for ws in self.sockets(L):
            L.allow(ws, "client_state", "application_state")

    def sockets(self, L):
        return [v for v in L.vars.values() if isinstance(v, WebSocket)]

    def check(self, L, i):
        self.c.check("inv: one hook call per message so far, in order", self.c.all([self.g.n == i, self.g.ordered, self.g.ended == 0, self.g.n <= self.upto]))
        for ws in self.sockets(L):
            self.c.check("inv: the socket is open", ws.client_state is WebSocketState.CONNECTED and ws.application_state is WebSocketState.CONNECTED)


class Ghost:
    _ghost_ok = True

    def __init__(self):
        self.n, self.ordered, self.ended, self.reads, self.last = 0, True, 0, 0, None


def any_length(c):
    """sessions of any length: each message reaches the hook once and in order, the disconnect hook runs once"""
    g = Ghost()
    encoding = c.choose("encoding", [None, "text", "bytes"])
    fail_at = c.choose("failure", ["never", "some message"])
    err = Err("x")
    total = c.int("messages", lo=0, hi=None if c.mode == "proof" else 4)
    bad = c.int("failing message", lo=0, ex=[0, 1, 3])
    c.assume(bad < total if fail_at != "never" else True)
    code = c.int("code", lo=1000, hi=4999)

    class E(WebSocketEndpoint):
        async def on_receive(self, websocket, data):
            g.ordered = c.all([g.ordered, g.last == g.n, g.ended == 0])
            g.n = g.n + 1
            if fail_at != "never" and g.n == bad + 1:
                raise err

        async def on_disconnect(self, websocket, close_code):
            g.ended = g.ended + 1
            g.code = close_code
    E.encoding = encoding
    first = [True]

    async def receive():
        if first[0]:
            first[0] = False
            return {"type": "websocket.connect"}
        g.last = g.n
        if g.n < total:
            if encoding == "bytes":
                return {"type": "websocket.receive", "bytes": b"x"}
            return {"type": "websocket.receive", "text": "x"}
        return {"type": "websocket.disconnect", "code": code}
    send = Recorder()
    c.loop("starlette.endpoints:WebSocketEndpoint.dispatch#0", SessionLoop(g, total if fail_at == "never" else bad))

    async def go():
        await E(dict(SCOPE), receive, send)
    raised = None
    try:
        c.run(go())
    except Err as e:
        raised = e
    c.check("the disconnect hook runs exactly once", g.ended == 1)
    c.check("messages are handled once each and in order", g.ordered)
    if raised is None:
        c.check("every message was handled", g.n == total)
        c.check("ends with the client's code", g.code == code)
        c.check("no failure is swallowed", fail_at == "never")
    else:
        c.check("stops at the failure", c.all([g.n == bad + 1, g.code == 1011]))


def failures(c):
    """failures outside the receive hook: connect hook, protocol errors, unknown encodings, bad utf-8"""
    log = []
    what = c.choose("failure", ["connect hook", "protocol", "bad utf-8", "encoding", "not accepted"])
    err = Err("x")
    incoming = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "1"}, {"type": "websocket.disconnect", "code": 1001}]
    if what == "protocol":
        incoming.insert(1, {"type": "websocket.connect"})
    if what == "bad utf-8":
        incoming[1] = {"type": "websocket.receive", "bytes": b"\xff"}
    server = Server(incoming)
    E = endpoint(log, {"bad utf-8": "json", "encoding": "xml"}.get(what), fail_connect=err if what == "connect hook" else None)
    raised = drive(c, E, server)
    dis = [x for x in log if x[0] == "disconnect"]
    if what == "not accepted":
        c.check("plain session", raised is None and log == [("connect",), ("receive", "1"), ("disconnect", 1001)], log)
        return
    if what == "connect hook":
        c.check("a failing connect hook propagates", raised is err)
        c.check("no message is handled", [x for x in log if x[0] == "receive"] == [])
        return
    c.check("the error propagates", raised is not None)
    c.check("the disconnect hook still runs exactly once, with 1011", dis == [("disconnect", 1011)], log)
    c.check("the message is not handled", [x for x in log if x[0] == "receive"] == [])


HARNESSES = [session, any_length, failures]
