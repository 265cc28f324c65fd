"""C13: the WebSocket protocol automaton.

`send_step`/`receive_step` are the inductive step: from every state, for every message, the step is legal or refused and the
successor state is the automaton's.  `history` runs whole (bounded) histories against the same automaton through the public API."""
import json

from starlette.responses import PlainTextResponse, Response
from starlette.websockets import WebSocket, WebSocketClose, WebSocketDisconnect, WebSocketState

from contracts.common import *

ACCEPT, SEND, CLOSE = "websocket.accept", "websocket.send", "websocket.close"
DSTART, DBODY = "websocket.http.response.start", "websocket.http.response.body"
CONNECT, RECEIVE, DISCONNECT = "websocket.connect", "websocket.receive", "websocket.disconnect"
ALL = [ACCEPT, SEND, CLOSE, DSTART, DBODY, CONNECT, RECEIVE, DISCONNECT, "http.response.start", ""]
CING, CED, RESP, DISC = "connecting", "connected", "response", "disconnected"
REAL = {CING: WebSocketState.CONNECTING, CED: WebSocketState.CONNECTED, RESP: WebSocketState.RESPONSE, DISC: WebSocketState.DISCONNECTED}


def send_spec(state, kind, more_body):
    """-> successor state, or None if the message is illegal in `state`"""
    if state == CING:
        if kind == ACCEPT:
            return CED
        if kind == CLOSE:
            return DISC
        if kind == DSTART:
            return RESP
    elif state == CED:
        if kind == SEND:
            return CED
        if kind == CLOSE:
            return DISC
    elif state == RESP:
        if kind == DBODY:
            return RESP if more_body else DISC
    return None


def receive_spec(state, kind):
    if state == CING and kind == CONNECT:
        return CED
    if state == CED and kind == RECEIVE:
        return CED
    if state == CED and kind == DISCONNECT:
        return DISC
    return None


class Server:
    def __init__(self, incoming=(), fail=None):
        self.sent, self.reads, self.incoming, self.fail = [], 0, list(incoming), fail

    async def receive(self):
        self.reads += 1
        return self.incoming[self.reads - 1]

    async def send(self, message):
        self.sent.append(message)
        if self.fail is not None:
            raise self.fail


def socket(server, scope=None):
    return WebSocket(scope or {"type": "websocket", "path": "/", "headers": []}, server.receive, server.send)


def attempt(c, coro, *types):
    try:
        return None, c.run(coro)
    except types as e:
        return e, None


def message_of(c, kind):
    m = {"type": kind}
    if c.bool("extra fields"):
        m["text"] = c.str("text")
        m["code"] = 1000
    mb = c.choose("more_body", ["absent", False, True])
    if mb != "absent":
        m["more_body"] = mb
    return m, mb is True


def send_step(c):
    """the inductive step of send(): any state, any message"""
    state = c.choose("application state", [CING, CED, RESP, DISC])
    client = c.choose("client state", [CING, CED, DISC])
    kind = c.str("type", ex=ALL)
    message, more = message_of(c, kind)
    before = dict(message)
    fail = c.choose("server", [None, OSError("gone"), ConnectionResetError("gone")])
    server = Server(fail=fail)
    ws = socket(server)
    ws.application_state, ws.client_state = REAL[state], REAL[client]
    err, _ = attempt(c, ws.send(message), RuntimeError, WebSocketDisconnect, OSError)
    nxt = send_spec(state, kind, more)
    c.check("nothing is read by a send", server.reads == 0 and ws.client_state is REAL[client])
    if nxt is None:
        c.check("an illegal message is refused with an error", isinstance(err, RuntimeError), (state, kind))
        c.check("and never forwarded", server.sent == [], (state, kind))
        c.check("leaving the state unchanged", ws.application_state is REAL[state])
        return
    c.check("a legal message is forwarded exactly once, unchanged", len(server.sent) == 1 and server.sent[0] is message and message == before)
    if fail is None:
        c.check("without error", err is None)
        c.check("the state follows the protocol", ws.application_state is REAL[nxt], (state, kind, ws.application_state))
    elif state == CED:
        c.check("a failed send while connected is a disconnect with code 1006", isinstance(err, WebSocketDisconnect) and err.code == 1006)
        c.check("after which nothing more can be sent", ws.application_state is WebSocketState.DISCONNECTED)
    else:
        c.check("the server's error is not hidden", err is fail)


def receive_step(c):
    """the inductive step of receive(): any state, any message"""
    state = c.choose("client state", [CING, CED, DISC])
    app = c.choose("application state", [CING, CED, RESP, DISC])
    kind = c.str("type", ex=ALL)
    message, _ = message_of(c, kind)
    server = Server([message])
    ws = socket(server)
    ws.application_state, ws.client_state = REAL[app], REAL[state]
    err, got = attempt(c, ws.receive(), RuntimeError)
    c.check("nothing is sent by a receive", server.sent == [] and ws.application_state is REAL[app])
    if state == DISC:
        c.check("no read after a disconnect", server.reads == 0 and err is not None)
        return
    nxt = receive_spec(state, kind)
    c.check("one message is read", server.reads == 1)
    if nxt is None:
        c.check("an unexpected message is an error", err is not None, (state, kind))
        c.check("leaving the state unchanged", ws.client_state is REAL[state])
    else:
        c.check("an expected message is handed over unchanged", err is None and got is message)
        c.check("the state follows the protocol", ws.client_state is REAL[nxt])


def history(c):
    """whole histories through send()/receive(), fields never touched"""
    c.bound("histories of at most 3 steps (4 in the thorough tier)")
    n = c.choose("steps", [1, 2, 3, 4] if c.thorough else [1, 2, 3])
    server = Server()
    ws = socket(server)
    app, client = CING, CING
    pending = []
    forwarded = reads = 0
    for i in range(n):
        op = c.choose("op", ["send", "receive"] if i != n - 1 else ["send", "receive", "send failing"])
        if op == "receive":
            kind = c.choose("incoming", [CONNECT, RECEIVE, DISCONNECT])
            server.incoming.append({"type": kind})
            err, got = attempt(c, ws.receive(), RuntimeError)
            if client == DISC:
                c.check("never reads again after a disconnect", server.reads == reads and err is not None)
                server.incoming.pop()
                continue
            reads += 1
            nxt = receive_spec(client, kind)
            c.check("reads one message", server.reads == reads)
            c.check("hands over exactly the messages that are due", (err is None) == (nxt is not None) and (nxt is None or got["type"] == kind))
            client = nxt or client
        else:
            server.fail = OSError("x") if op == "send failing" else None
            kind = c.choose("outgoing", [ACCEPT, SEND, CLOSE, DSTART, DBODY])
            more = c.bool("more_body") if kind == DBODY else False
            m = {"type": kind, "more_body": more} if kind == DBODY else {"type": kind}
            err, _ = attempt(c, ws.send(m), RuntimeError, WebSocketDisconnect, OSError)
            nxt = send_spec(app, kind, more)
            if nxt is None:
                c.check("illegal messages are refused and never forwarded", len(server.sent) == forwarded and isinstance(err, RuntimeError),
                        (app, kind, server.sent))
            else:
                forwarded += 1
                c.check("legal messages are forwarded once", len(server.sent) == forwarded and server.sent[-1] is m)
                if server.fail is not None and app == CED:
                    c.check("a failed send is a 1006 disconnect", isinstance(err, WebSocketDisconnect) and err.code == 1006)
                    app = DISC
                else:
                    c.check("no error", err is server.fail)
                    app = nxt


def accept(c):
    """accept() waits for the connect message first and is legal once"""
    first = c.choose("first message", [CONNECT, RECEIVE, DISCONNECT])
    already = c.bool("connect already received")
    sub = c.opt("subprotocol", lambda c, n: c.str(n))
    headers = c.choose("headers", [None, [], [(b"a", b"b")]])
    server = Server([{"type": CONNECT}, {"type": RECEIVE, "text": "x"}] if already else [{"type": first}, {"type": RECEIVE, "text": "x"}])
    ws = socket(server)
    if already:
        c.run(ws.receive())
    kw = {}
    if sub is not None:
        kw["subprotocol"] = sub
    if headers is not None:
        kw["headers"] = headers
    err, _ = attempt(c, ws.accept(**kw), RuntimeError)
    if not already and first != CONNECT:
        c.check("no accept without a connect message", err is not None and server.sent == [])
        return
    c.check("accept is sent once, after connect", err is None and len(server.sent) == 1 and server.reads == 1)
    m = server.sent[0]
    c.check("with what was asked", m["type"] == ACCEPT and list(m.get("headers", [])) == (headers or []))
    c.check("subprotocol", (m.get("subprotocol") is None) if sub is None else m.get("subprotocol") == sub)
    err, _ = attempt(c, ws.accept(), RuntimeError)
    c.check("a second accept is refused", err is not None and len(server.sent) == 1)


def receive_helpers(c):
    """receive_text/bytes/json: the payload of a data message, an error for a disconnect"""
    kind = c.choose("helper", ["text", "bytes", "json", "json binary"])
    accepted = c.choose("state", ["new", "connect seen", "accepted", "closed"])
    incoming = c.choose("incoming", ["data", "disconnect", "connect"])
    text = c.str("text", ex=["1", "\"a\""])
    if kind.startswith("json"):
        text = c.choose("json text", ["1", "[1, \"\u20ac\"]", "null"])
    code, reason = c.int("code", lo=1000, hi=4999), c.opt("reason", lambda c, n: c.str(n))
    data = {"type": RECEIVE, "text": text} if kind in ("text", "json") else {"type": RECEIVE, "bytes": text.encode("utf-8")}
    dis = {"type": DISCONNECT, "code": code}
    if reason is not None:
        dis["reason"] = reason
    m = {"data": data, "disconnect": dis, "connect": {"type": CONNECT}}[incoming]
    server = Server([{"type": CONNECT}, m])
    ws = socket(server)
    if accepted == "connect seen":
        c.run(ws.receive())
    elif accepted == "accepted":
        c.run(ws.accept())
    elif accepted == "closed":
        c.run(ws.accept())
        c.run(ws.close())
    reads = server.reads
    coro = {"text": ws.receive_text, "bytes": ws.receive_bytes, "json": ws.receive_json,
            "json binary": (lambda: ws.receive_json(mode="binary"))}[kind]()
    err, got = attempt(c, coro, RuntimeError, WebSocketDisconnect)
    if accepted != "accepted":
        c.check("nothing is read before accept or after close", isinstance(err, RuntimeError) and server.reads == reads, accepted)
        return
    if incoming == "disconnect":
        c.check("a disconnect is reported with its code and reason", isinstance(err, WebSocketDisconnect) and err.code == code and
                err.reason == ("" if reason is None else reason))
        again, _ = attempt(c, ws.receive(), RuntimeError)
        c.check("and never read past", again is not None and server.reads == reads + 1)
    elif incoming == "connect":
        c.check("a second connect is an error", isinstance(err, RuntimeError))
    else:
        want = {"text": text, "bytes": text.encode("utf-8")}.get(kind)
        if kind.startswith("json"):
            want = json.loads(text)
        c.check("the payload is returned", err is None and got == want, got)


def send_helpers(c):
    """send_text/bytes/json/close: one message each"""
    kind = c.choose("helper", ["text", "bytes", "json", "json binary", "close"])
    state = c.choose("state", ["new", "accepted", "closed"])
    server = Server([{"type": CONNECT}])
    ws = socket(server)
    if state != "new":
        c.run(ws.accept())
    if state == "closed":
        c.run(ws.close())
    n = len(server.sent)
    text, data = c.str("text"), c.bytes("data")
    obj = c.choose("json", [1, ["\u20ac", {"a": None}], "x"])
    code, reason = c.int("code", lo=1000, hi=4999), c.opt("reason", lambda c, n: c.str(n))
    coro = {"text": lambda: ws.send_text(text), "bytes": lambda: ws.send_bytes(data), "json": lambda: ws.send_json(obj),
            "json binary": lambda: ws.send_json(obj, mode="binary"),
            "close": lambda: ws.close(code=code) if reason is None else ws.close(code=code, reason=reason)}[kind]()
    err, _ = attempt(c, coro, RuntimeError)
    legal = state == "accepted" or (state == "new" and kind == "close")
    if not legal:
        c.check("illegal sends are refused and never forwarded", err is not None and len(server.sent) == n)
        return
    c.check("forwarded once", err is None and len(server.sent) == n + 1)
    m = server.sent[-1]
    if kind == "close":
        c.check("close carries code and reason", m["type"] == CLOSE and m["code"] == code and m.get("reason", "") == ("" if reason is None else reason))
    elif kind == "text":
        c.check("text frame", m["type"] == SEND and m["text"] == text and m.get("bytes") is None)
    elif kind == "bytes":
        c.check("bytes frame", m["type"] == SEND and m["bytes"] == data and m.get("text") is None)
    elif kind == "json":
        c.check("json as text", m["type"] == SEND and json.loads(m["text"]) == obj and m.get("bytes") is None)
    else:
        c.check("json as bytes", m["type"] == SEND and json.loads(m["bytes"].decode("utf-8")) == obj and m.get("text") is None)


def modes(c):
    """an unknown JSON mode is refused before anything is read or sent"""
    server = Server([{"type": CONNECT}, {"type": RECEIVE, "text": "1"}])
    ws = socket(server)
    c.run(ws.accept())
    mode = c.str("mode", ex=["text", "binary", "x", ""])
    c.assume(c.all([mode != "text", mode != "binary"]))
    coro = ws.receive_json(mode=mode) if c.bool("receive") else ws.send_json(1, mode=mode)
    err, _ = attempt(c, coro, RuntimeError)
    c.check("refused", err is not None and server.reads == 1 and len(server.sent) == 1)


def iterate(c):
    """iter_* yield each payload in order and end at the disconnect"""
    c.bound("at most 3 messages")
    kind = c.choose("helper", ["text", "bytes", "json"])
    payloads = c.list("messages", lambda c, n: c.choose(n, ["1", "22"]), proof=False, max=3)
    msgs = [{"type": RECEIVE, "bytes" if kind == "bytes" else "text": p.encode() if kind == "bytes" else p} for p in payloads]
    server = Server([{"type": CONNECT}] + msgs + [{"type": DISCONNECT, "code": 1000}])
    ws = socket(server)
    c.run(ws.accept())

    async def go():
        out = []
        async for x in {"text": ws.iter_text, "bytes": ws.iter_bytes, "json": ws.iter_json}[kind]():
            out.append(x)
        return out
    got = c.run(go())
    c.check("every payload in order", got == [{"text": p, "bytes": p.encode(), "json": int(p)}[kind] for p in payloads], got)
    c.check("nothing is read past the disconnect", server.reads == len(payloads) + 2)


def denial(c):
    """a denial response goes out as one denial start and its bodies, and closes the socket"""
    supported = c.bool("extension")
    body = c.bytes("body", ex=[b"", b"no"])
    status = c.int("status", lo=200, hi=599)
    resp = Response(body, status_code=status)
    scope = {"type": "websocket", "path": "/", "headers": [], "asgi": {"spec_version": "2.4"}}
    if supported:
        scope["extensions"] = {"websocket.http.response": {}}
    server = Server([{"type": CONNECT}])
    ws = socket(server, scope)
    err, _ = attempt(c, ws.send_denial_response(resp), RuntimeError)
    if not supported:
        c.check("refused when the server does not support it", err is not None and server.sent == [])
        return
    c.check("sent", err is None and [m["type"] for m in server.sent] == [DSTART] + [DBODY] * (len(server.sent) - 1) and len(server.sent) > 1)
    c.check("with the response's status", server.sent[0]["status"] == status)
    whole = b""
    for m in server.sent[1:]:
        whole = whole + m.get("body", b"")
    c.check("and body", whole == body)
    c.check("ended by exactly one final body", not server.sent[-1].get("more_body", False) and all([m.get("more_body", False) for m in server.sent[1:-1]]))
    n = len(server.sent)
    err, _ = attempt(c, ws.close(), RuntimeError)
    c.check("nothing can follow the last body", err is not None and len(server.sent) == n)


def close_app(c):
    """WebSocketClose as an application sends exactly one close"""
    code, reason = c.int("code", lo=1000, hi=4999), c.opt("reason", lambda c, n: c.str(n))
    send = Recorder()
    app = WebSocketClose(code) if reason is None else WebSocketClose(code, reason)
    c.run(app({"type": "websocket"}, no_receive, send))
    c.check("one close message", len(send.sent) == 1 and send.sent[0]["type"] == CLOSE and send.sent[0]["code"] == code and
            send.sent[0].get("reason", "") == ("" if reason is None else reason))


HARNESSES = [send_step, receive_step, history, accept, receive_helpers, send_helpers, modes, iterate, denial, close_app]
