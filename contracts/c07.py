"""C07: plain, HTML, text, JSON and redirect responses."""
import json

from starlette.datastructures import URL
from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response

from contracts.common import *
from engine.contract import seq_any


class Latin(Response):
    charset = "latin-1"
    media_type = "text/latin"


class Sender:
    """the server's side: records messages, may fail"""

    def __init__(self, fail_at):
        self.sent, self.fail_at, self.failed = [], fail_at, False

    async def __call__(self, message):
        if self.fail_at == len(self.sent):
            self.failed = True
            raise OSError("gone")
        self.sent.append(message)


def exchange(c, r, body, body_headers, status, scope_type="http"):
    """call the response and judge its messages"""
    fail_at = c.choose("send fails at", [None, 0, 1])
    snd = Sender(fail_at)
    bg = []
    if c.bool("background"):
        async def task():
            bg.append(len(snd.sent))
        r.background = task
    gone = False
    try:
        c.run(r({"type": scope_type}, no_receive, snd))
    except OSError:
        gone = True
    if fail_at is not None:
        c.check("a failed send ends the response", gone and len(snd.sent) == fail_at and bg == [], snd.sent)
        return None
    st, headers, sent = one_response(c, "response", snd.sent, "websocket." if scope_type == "websocket" else "")
    c.check("the status", st == status, st)
    c.check("the encoded content", sent == body, (sent, body))
    c.check("background work starts after the final message", bg == ([2] if r.background is not None else []), bg)
    return headers


def judge_headers(c, headers, given, status, length, media_type, charset, added=()):
    """caller's headers first, in order, lower-cased; then content-length and content-type unless given"""
    n = c.length(given)
    k = c.int("any given header", lo=0, ex=[0, 1, 2])
    if k < n:
        c.check("caller's header kept, name lower-cased", headers[k] == (given[k][0].lower().encode("latin-1"), given[k][1].encode("latin-1")), (headers, given))
    has_length = seq_any(given, lambda p: p[0].lower() == "content-length")
    has_type = seq_any(given, lambda p: p[0].lower() == "content-type")
    want = []
    if not has_length and not (status < 200 or status == 204 or status == 304):
        want.append((b"content-length", str(length).encode("latin-1")))
    if media_type is not None and not has_type:
        if media_type.startswith("text/") and "charset=" not in media_type.lower():
            want.append((b"content-type", (media_type + "; charset=" + charset).encode("latin-1")))
        else:
            want.append((b"content-type", media_type.encode("latin-1")))
    for w in added:
        want.append(w)
    c.check("exactly the missing default headers are added", c.length(headers) == n + len(want), (headers, want))
    found = [headers[n + i] for i in range(len(want))]
    for w in want:
        c.check(f"added header {w[0]}", any([w == f for f in found]), (found, want))


CLASSES = [(Response, None), (HTMLResponse, "text/html"), (PlainTextResponse, "text/plain"), (Latin, "text/latin")]


def content(c, cls):
    kind = c.choose("content", ["none", "bytes", "text"])
    if kind == "none":
        return None, b""
    if kind == "bytes":
        b = c.bytes("body", ex=[b"", b"abc", b"\xff\x00"])
        return b, b
    t = c.str("text", alpha=LATIN1 if cls is Latin else 2, ex=["", "abc", "\u00e9", "\u20ac"] if cls is not Latin else ["", "\u00e9"])
    return t, t.encode("latin-1" if cls is Latin else "utf-8")


def status_code(c):
    return c.int("status", lo=100, hi=599, ex=[100, 199, 200, 204, 205, 304, 404, 500])


def messages(c):
    """start and body messages, send failures, background work"""
    cls, mt = c.choose("class", CLASSES)
    data, body = content(c, cls)
    status = status_code(c)
    r = cls(data, status)
    headers = exchange(c, r, body, None, status, c.choose("scope", ["http", "websocket"]))
    if headers is not None:
        judge_headers(c, headers, [], status, len(body), mt, cls.charset)


def header_defaults(c):
    """any caller headers, status, content and media type"""
    cls, mt = c.choose("class", CLASSES)
    data, body = content(c, cls)
    status = status_code(c)
    given, pairs = caller_headers(c)
    media_type = c.opt("media type", lambda c, n: c.str(n, re="[!-~ ]+", alpha=ASCII, ex=["text/csv", "text/x; charset=utf-16", "image/png", "Text/y", "text/z; CHARSET=x"]))
    r = cls(data, status, given, media_type)
    rec = Recorder()
    c.run(r({"type": "http"}, no_receive, rec))
    st, headers, sent = one_response(c, "response", rec.sent)
    c.check("status and content", st == status and sent == body)
    judge_headers(c, headers, pairs, status, len(body), mt if media_type is None else media_type, cls.charset)


def memory(c):
    """memoryview content"""
    data = c.choose("data", [b"", b"abc", bytes(range(200))])
    r = Response(memoryview(data), media_type="application/octet-stream")
    headers = exchange(c, r, data, None, 200)
    if headers is not None:
        judge_headers(c, headers, [], 200, len(data), "application/octet-stream", "utf-8")


VALUES = [None, True, 0, -1.5, 10**20, "", "a\"b\\\n", "\u20ac\U0001f600\u2028", "</script>", [], {}, [1, [2, {"a": None}]], {"k": "v", "\u00e9": [1.0, False]}, {"b": 1, "a": 2}]


def json_responses(c):
    """JSON content and its encoding"""
    c.bound("a fixed set of JSON values in the symbolic run (random values in the concrete run)")
    v = c.choose("value", VALUES)
    if c.mode == "concrete" and c.bool("random"):
        v = {"x": c.str("x"), "y": [c.int("y"), {c.str("key"): None}]}
    status = c.choose("status", [200, 201, 204])
    given, pairs = caller_headers(c) if v == [] or c.mode == "concrete" else (None, [])
    media_type = c.choose("media type", [None, "application/problem+json", "text/json"])
    r = JSONResponse(v, status, given, media_type)
    rec = Recorder()
    c.run(r({"type": "http"}, no_receive, rec))
    st, headers, body = one_response(c, "response", rec.sent)
    text = bytes(body).decode("utf-8")
    c.check("the body is the content as JSON", json.loads(text) == v, text)
    c.check("compact: no blanks between tokens", len(text) == len(json.dumps(v, ensure_ascii=False, separators=(",", ":"))), text)
    c.check("the status", st == status)
    judge_headers(c, headers, pairs, status, len(body), media_type or "application/json", "utf-8")


def json_refused(c):
    """content that is no JSON is refused"""
    for v in (float("nan"), float("inf"), {"a": [float("-inf")]}, object()):
        ok = False
        try:
            JSONResponse(v)
        except (ValueError, TypeError):
            ok = True
        c.check("what JSON cannot express is refused", ok, v)


SAFE = r"[A-Za-z0-9_.~\-:/%#?=@\[\]!$&'()*+,;]*"


def set_absent(headers, key, value):
    """contract of MutableHeaders.__setitem__ for an absent name (proved under C22): one entry is added at the end"""
    headers.raw.append((key.lower().encode("latin-1"), value.encode("latin-1")))


def redirects(c):
    """redirect locations"""
    url = c.str("url", ex=["/", "/a b", "https://example.org/\u20ac?q=1&r=%20#f", "http://[::1]:80/", "\"<>\\^`{|}", "/a\r\nX: y"])
    given, pairs = caller_headers(c)
    if seq_any(pairs, lambda p: p[0].lower() == "location"):
        c.done()
    safe = bool(c.matches(url, SAFE))
    status = c.choose("status", [None, 308])
    if c.mode == "proof":
        c.stub("starlette.datastructures:MutableHeaders.__setitem__", set_absent)
    arg = URL(url) if c.bool("as URL object") else url
    r = RedirectResponse(arg, headers=given) if status is None else RedirectResponse(arg, status, given)
    rec = Recorder()
    c.run(r({"type": "http"}, no_receive, rec))
    st, headers, body = one_response(c, "response", rec.sent)
    c.check("status, no body", st == (status or 307) and body == b"")
    m = c.length(headers)
    loc = headers[m - 1]
    c.check("a Location header", loc[0] == b"location", headers)
    value = loc[1].decode("latin-1")
    c.check("only URL-safe ASCII characters", c.matches(value, SAFE), value)
    if safe:
        c.check("a safe URL is kept as it is", value == url, (value, url))
    if c.mode == "concrete":
        from urllib.parse import unquote
        c.check("the same URL, quoted", unquote(value) == unquote(url), (value, url))
    judge_headers(c, headers, pairs, status or 307, 0, None, "utf-8", [loc])


HARNESSES = [messages, header_defaults, memory, json_responses, json_refused, redirects]
OPTS = {"header_defaults": {"weight": 4}, "messages": {"weight": 3}, "redirects": {"weight": 2}}
