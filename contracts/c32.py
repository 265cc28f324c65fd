"""C32: the test client."""
import io
from urllib.parse import unquote

import anyio
import httpx

import starlette.testclient
from starlette.testclient import TestClient, _TestClientTransport

from contracts.common import *
from engine.contract import internal


class Err(Exception):
    pass


class Waiting(Exception):
    """the application would wait here"""


class Url(Ghost):
    """an httpx.URL (assumed contract: path is the decoded path, raw_path the path as sent with the query, netloc the host with a port other than the default)"""

    def __init__(self, c, scheme, host, port, path, raw, query):
        self.c, self.scheme, self.port, self.path, self.query = c, scheme, port, path, query
        self.raw_host = host.encode()
        self.host = host
        shown = "[" + host + "]" if ":" in host else host
        self.netloc = (shown if port is None else shown + ":" + str(port)).encode()
        self.raw_path = raw if query == b"" else raw + b"?" + query


class HeaderList(Ghost):
    def __init__(self, c, raw):
        self.c, self.raw = c, raw

    def __contains__(self, name):
        return any(bool(k.lower() == name.encode()) for k, v in self.raw)

    def get(self, name, default=None):
        for k, v in self.raw:
            if k.lower() == name.encode():
                return v.decode("latin-1")
        return default


class Request(Ghost):
    def __init__(self, c, method, url, raw, body):
        self.c, self.method, self.url, self.body = c, method, url, body
        self.headers = HeaderList(c, raw)

    def read(self):
        return self.body


class Answer(Ghost):
    """an httpx.Response: what it is made of"""

    def __init__(self, c, status_code, headers, stream, request):
        self.c, self.status_code, self.headers, self.stream, self.request = c, status_code, headers, stream, request


class Httpx(Ghost):
    def __init__(self, c):
        self.c = c

    def Response(self, status_code=None, headers=None, stream=None, request=None, **kw):
        if kw or not isinstance(stream, Body):
            self.c.give_up("the response is built otherwise")
        return Answer(self.c, status_code, [(text(k), text(v)) for k, v in headers], stream.data, request)

    def ByteStream(self, data):
        return Body(self.c, data)


class Body(Ghost):
    def __init__(self, c, data):
        self.c, self.data = c, data


def text(x):
    """a header's name or value, given as text or as bytes"""
    return x.encode("utf-8") if not isinstance(x, bytes) and hasattr(x, "encode") and not hasattr(x, "decode") else x


class Event(Ghost):
    def __init__(self, c):
        self.c, self.on = c, False

    def is_set(self):
        return self.on

    def set(self):
        self.on = True

    async def wait(self):
        if not self.on:
            raise Waiting()


class Portal(Ghost):
    """a blocking portal: runs coroutine functions to their end"""

    def __init__(self, c):
        self.c, self.depth = c, 0

    def __call__(self):
        return self

    def __enter__(self):
        self.depth = self.depth + 1
        return self

    def __exit__(self, *a):
        self.depth = self.depth - 1

    def call(self, f, *args):
        self.c.check("the portal is open", self.depth == 1)
        if f is anyio.Event:
            return Event(self.c)
        return self.c.run(f(*args))


class App:
    """sends messages, with calls of receive among them"""

    def __init__(self, c, steps, err=None):
        self.c, self.steps, self.err, self.scopes, self.received, self.refused, self.n = c, steps, err, [], [], None, 0

    async def __call__(self, scope, receive, send):
        self.scopes.append(scope)
        for s in self.steps:
            if s == "receive":
                self.received.append(await receive())
            else:
                try:
                    await send(s)
                except BaseException as e:
                    self.refused = e
                    raise
                self.n += 1
        if self.err is not None:
            raise self.err


def transport(c, app, **kw):
    import inspect
    kw = {"app": app, "portal_factory": Portal(c), "client": ("testclient", 50000), "app_state": {}, **kw}
    try:
        inspect.signature(_TestClientTransport.__init__).bind(None, **{k: 0 for k in kw})
    except TypeError:
        c.done()
    if getattr(starlette.testclient, "httpx", None) is not httpx:
        c.give_up("httpx is used otherwise")
    c.stub("starlette.testclient:httpx", Httpx(c))
    return _TestClientTransport(**kw)


def simple(c, method="GET", body=b""):
    return Request(c, method, Url(c, "http", "testserver", None, "/", b"/", b""), [(b"Host", b"testserver")], body)


def described(c):
    """the scope of any request"""
    ipv6 = c.bool("IPv6 host")
    host = "::1" if ipv6 else c.str("host", re=HOSTNAME, ex=["testserver", "example.org"])
    scheme = c.choose("scheme", ["http", "https"])
    port = c.int("port", 1, 65535, ex=[8000, 80]) if c.bool("another port") else None
    path = c.str("path", re="/.*", alpha=2, ex=["/", "/a b", "/%41", "/caf\xe9", "/a/b"])
    raw = c.bytes("raw path", re="/[!-\"$->@-~]*", ex=[b"/", b"/a%20b", b"/%2541"])
    query = c.bytes("query", re="[!-\"$-~]*", ex=[b"", b"a=1&b=2", b"?"])
    method = c.str("method", re="[A-Z]+", ex=["GET", "HEAD", "POST"])
    hs = [(b"Host", b"elsewhere")] if c.bool("host header") else []
    with_host = len(hs)
    n = c.choose("more headers", [0, 1, 2])
    for i in range(n):
        hs.append((c.bytes(f"name {i}", re="[!-9;-~]+", ex=[b"X-A", b"Accept"]), c.bytes(f"value {i}", ex=[b"", b"v", b"\xe9"])))
        c.assume(hs[-1][0].lower() != b"host")
    state, root = {"k": 1}, c.str("root path", ex=["", "/api"])
    client = (c.str("client host", ex=["testclient"]), 123)
    body = c.bytes("body", ex=[b"", b"xyz"])
    app = App(c, ["receive", {"type": "http.response.start", "status": 204, "headers": []}, {"type": "http.response.body"}, "receive"])
    url = Url(c, scheme, host, port, path, raw, query)
    t = transport(c, app, root_path=root, client=client, app_state=state)
    t.handle_request(Request(c, method, url, hs, body))
    c.check("the application is called once", len(app.scopes) == 1)
    scope = app.scopes[0]
    for what in aspect(c, "scope", "headers", "receive"):
        if what == "scope":
            want = {"type": "http", "http_version": "1.1", "method": method, "path": path, "raw_path": raw, "root_path": root, "scheme": scheme, "query_string": query, "client": client}
            for k, v in want.items():
                c.check("the scope's " + k, k in scope and scope[k] == v, (scope.get(k), v))
            default = 80 if scheme == "http" else 443
            c.check("the server's address", scope["server"][0] == host and scope["server"][1] == (default if port is None else port), scope["server"])
            c.check("a copy of the state", scope["state"] == state and scope["state"] is not state)
        elif what == "headers":
            got = list(scope["headers"])
            if with_host == 0:
                c.check("a host header is added", len(got) > 0 and got[0] == (b"host", url.netloc), got)
                got = got[1:]
            c.check("every header, in order, its name in lower case", len(got) == len(hs) and all(bool(g[0] == h[0].lower()) and bool(g[1] == h[1]) for g, h in zip(got, hs)), (got, hs))
        else:
            c.check("the whole body, then the disconnect", len(app.received) == 2 and app.received[0]["type"] == "http.request" and app.received[0].get("body", b"") == body
                    and not app.received[0].get("more_body", False) and app.received[1] == {"type": "http.disconnect"}, app.received)


def waits(c):
    """the client disconnects only when the response is complete"""
    done = c.choose("messages before", [0, 1, 2])
    steps = ["receive"] + [{"type": "http.response.start", "status": 200, "headers": []}, {"type": "http.response.body", "body": b"x", "more_body": True}][:done] + ["receive"]
    app = App(c, steps)
    raised = None
    try:
        transport(c, app).handle_request(simple(c, "POST", b"abc"))
    except Waiting as e:
        raised = e
    c.check("a second receive waits", raised is not None and len(app.received) == 1, app.received)


def exchanged(c):
    """what the application sends, message by message; protocol violations are errors"""
    c.bound("up to 4 messages; what is sent so far is any body")
    method = c.choose("method", ["GET", "HEAD"])
    reraise = c.bool("raise exceptions")
    k = c.choose("messages", [0, 1, 2, 3, 4])
    steps = []
    started = complete = bad = False
    body, status, headers, valid = b"", None, None, 0
    debug = None
    for i in range(k):
        kind = c.choose(f"message {i}", ["start", "body", "last", "debug"])
        if kind == "start":
            m = {"type": "http.response.start", "status": c.int(f"status {i}", 100, 599, ex=[200, 404])}
            if c.bool(f"headers {i}"):
                m["headers"] = [(c.bytes(f"name {i}", re="[a-z-]+", ex=[b"x", b"set-cookie"]), c.bytes(f"value {i}", ex=[b"", b"v", b"\xe9"])), (b"x-second", b"2")]
            if started:
                bad = True
            elif not bad:
                started, status, headers = True, m["status"], m.get("headers", [])
        elif kind == "debug":
            m = {"type": "http.response.debug", "info": {"template": f"t{i}", "context": {"i": i}}}
            debug = m["info"] if not bad else debug
        else:
            m = {"type": "http.response.body"}
            if c.bool(f"with a body {i}"):
                m["body"] = c.bytes(f"body {i}", ex=[b"", b"ab", b"c"])
            if kind == "body":
                m["more_body"] = True
            elif c.bool(f"says so {i}"):
                m["more_body"] = False
            if not started or complete:
                bad = True
            elif not bad:
                body, complete = body + m.get("body", b""), kind == "last"
        steps.append(m)
        if not bad:
            valid += 1
    err = Err() if not bad and c.bool("then it fails") else None
    app = App(c, steps, err)
    t = transport(c, app, raise_server_exceptions=reraise)
    request = simple(c, method)
    raised = got = None
    try:
        got = t.handle_request(request)
    except (Err, AssertionError) as e:
        raised = e
    c.check("every message up to a violation is taken", app.n == valid, (app.n, valid))
    c.check("a violation is an error", (app.refused is not None) == bad, app.refused)
    if reraise and err is not None:
        return c.check("the application's exception is raised", raised is err, raised)
    if reraise and (bad or not started):
        return c.check("no response or a violation is an error", raised is not None, raised)
    c.check("otherwise there is a response", raised is None and got is not None, raised)
    if not started:
        c.check("without a response: an empty 500", got.status_code == 500 and len(got.headers) == 0 and got.stream == b"", got)
    else:
        c.check("the status sent", got.status_code == status, got.status_code)
        same_list(c, "the headers sent", got.headers, [(n, v) for n, v in headers])
        c.check("the body sent, none for HEAD", got.stream == (b"" if method == "HEAD" else body), (got.stream, body))
    c.check("of this request", got.request is request)
    if debug is not None:
        c.check("template and context are passed on", getattr(got, "template", None) == debug["template"] and getattr(got, "context", None) == debug["context"])


async def record(scope, receive, send):
    raise NotImplementedError


def real(c):
    """the whole client, with the real httpx"""
    chars = ["a", "/", "%", "%41", "%2541", "\u00e9", " ", "+", ";", "%20", "%2F", "?", "=", "&", "."]
    path = "/" + "".join(c.choose(f"path {i}", chars[:11]) for i in range(c.choose("length", [0, 1, 2, 3])))
    if path.startswith("//"):
        return
    query = "".join(c.choose(f"query {i}", ["a", "=", "&", "%41", "\u00e9", "+", "%2B", "?"]) for i in range(c.choose("query length", [0, 1, 3])))
    base = c.choose("base", ["http://testserver", "https://testserver", "http://testserver:8000", "http://[::1]", "https://[::1]:8443", "http://testserver:80", "https://testserver:443", "http://127.0.0.1"])
    method = c.choose("method", ["GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"])
    content = c.choose("content", [None, b"", b"abc", b"\xff" * 70000])
    headers = [(b"X-One", b"1"), (b"x-one", b"\xe9")] if c.bool("own headers") else []
    reply = [c.choose(f"chunk {i}", [b"", b"x", b"\x00\xff", b"y" * 70000]) for i in range(c.choose("chunks", [1, 2, 3]))]
    status = c.choose("status", [200, 204, 404, 418, 500])
    back = c.choose("reply headers", [[], [(b"x-a", b"1"), (b"x-a", b"2"), (b"X-B", b"\xe9")]])
    fails = c.choose("fails", ["no", "before the start", "after the start", "after the body"])
    reraise = c.bool("raise exceptions")
    seen, bodies = [], []

    async def app(scope, receive, send):
        seen.append(scope)
        bodies.append(await receive())
        if fails == "before the start":
            raise Err()
        await send({"type": "http.response.start", "status": status, "headers": back})
        for i, b in enumerate(reply):
            if fails == "after the start" and i == len(reply) - 1:
                raise Err()
            await send({"type": "http.response.body", "body": b, "more_body": i < len(reply) - 1})
        if fails == "after the body":
            raise Err()
    client = TestClient(app, base_url=base, raise_server_exceptions=reraise)
    raised = None
    try:
        r = client.request(method, path + ("?" + query if query else ""), content=content, headers=headers)
    except Err as e:
        raised = e
    c.check("an exception is raised if configured", (raised is not None) == (reraise and fails != "no"), raised)
    s = seen[0]
    sent = s["raw_path"]
    c.check("the path is the raw path, decoded once", s["path"] == unquote(sent.decode()), (path, s["path"], sent))
    c.check("and what was asked for", unquote(path) == s["path"], (path, s["path"]))
    c.check("the query is the one asked for", unquote(s["query_string"].decode()) == unquote(query), (query, s["query_string"]))
    c.check("the method", s["method"] == method and s["type"] == "http")
    hosts = [v for k, v in s["headers"] if k == b"host"]
    authority = base.split("://")[1]
    bare = authority[:-3] if authority.endswith(":80") else authority[:-4] if authority.endswith(":443") else authority
    c.check("one host header, the authority asked for", len(hosts) == 1 and hosts[0] in (bare.encode(), authority.encode()), hosts)
    c.check("the scheme", s["scheme"] == base.split(":")[0])
    name, port = {"[::1]": ("::1", None), "[::1]:8443": ("::1", 8443), "testserver:8000": ("testserver", 8000)}.get(authority, (bare, None))
    c.check("the server", list(s["server"]) == [name, port or (443 if base.startswith("https") else 80)], s["server"])
    for k, v in headers:
        c.check("own headers are passed on", (k.lower(), v) in s["headers"], s["headers"])
    c.check("names in lower case", all(k == k.lower() for k, v in s["headers"]))
    c.check("the request's body", bodies[0].get("body", b"") == (content or b"") and not bodies[0].get("more_body"), bodies)
    if raised is not None:
        return
    if fails == "before the start":
        return c.check("a failure is a 500", r.status_code == 500 and r.content == b"")
    c.check("the status", r.status_code == status)
    c.check("the headers", [(k.lower(), v) for k, v in r.headers.raw] == [(k.lower(), v) for k, v in back], r.headers.raw)
    want = b"".join(reply[:-1] if fails == "after the start" else reply)
    c.check("the body, none for HEAD", r.content == (b"" if method == "HEAD" else want), (len(r.content), len(want)))


HARNESSES = [described, waits, exchanged, real]
BOUNDED = {"real": "the real httpx and anyio portal; requests and replies listed"}
OPTS = {"real": {"rand_n": 600}}
