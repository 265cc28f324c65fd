"""C34: WSGI applications."""
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware

from contracts.common import *
from engine.contract import around


class Err(Exception):
    pass


class Wsgi:
    """a WSGI application: calls start_response, then returns its chunks"""

    def __init__(self, status, headers, chunks, exc_info=None, lazy=False, again=None):
        self.status, self.headers, self.chunks, self.exc_info, self.lazy, self.again = status, headers, chunks, exc_info, lazy, again
        self.environs, self.bodies = [], []

    def __call__(self, environ, start_response):
        self.environs.append(environ)
        self.bodies.append(environ["wsgi.input"].read())
        if self.lazy:
            return self.generate(start_response)
        self.start(start_response)
        return self.chunks

    def start(self, start_response):
        if self.exc_info is None:
            start_response(self.status, self.headers)
        else:
            start_response(self.status, self.headers, self.exc_info)

    def generate(self, start_response):
        self.start(start_response)
        for i, chunk in enumerate(self.chunks):
            if self.again is not None and i == 1:
                start_response("500 Oops", [], self.again)
            yield chunk


class Source:
    """the server's side of receive"""

    def __init__(self, msgs):
        self.msgs, self.n = msgs, 0

    async def __call__(self):
        self.n += 1
        return self.msgs[self.n - 1]


def a_scope(c, **more):
    return {"type": "http", "http_version": "1.1", "method": "GET", "path": "/", "query_string": b"", "headers": [], **more}


def call(c, app, scope, msgs=None):
    receive, send = Source(msgs or [{"type": "http.request"}]), Recorder()
    err = None
    try:
        c.run(WSGIMiddleware(app)(scope, receive, send), loop=True)
    except Err as e:
        err = e
    except BaseExceptionGroup as e:
        err = e
    return send.sent, err, receive.n


def environ(c):
    """everything but the headers"""
    ascii_only = c.bool("ASCII path")
    alpha = ASCII if ascii_only else 2
    rest = c.str("path", re="/.*", alpha=alpha, ex=["/", "/a b", "/caf\xe9", "/\u20ac/"])
    root = c.str("root path", re="(/[^/]+)*", alpha=alpha, ex=["", "/app", "/\xe9"])
    method = c.str("method", re="[A-Z]+", ex=["GET", "POST"])
    query = c.str("query", re=QUERY, ex=["", "a=1&b=2"])
    scope = a_scope(c, method=method, path=root + rest, query_string=query.encode("ascii"))
    if c.bool("root path in the scope"):
        scope["root_path"] = root
    else:
        scope["path"] = rest
        root = ""
    want = {"REQUEST_METHOD": method, "QUERY_STRING": query, "SCRIPT_NAME": root.encode("utf8").decode("latin1"), "PATH_INFO": rest.encode("utf8").decode("latin1"),
            "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "SERVER_NAME": "localhost", "SERVER_PORT": 80}
    scheme = c.choose("scheme", [None, "http", "https"])
    if scheme is not None:
        scope["scheme"] = want["wsgi.url_scheme"] = scheme
    server = c.choose("server", ["absent", None, "given"])
    if server == "given":
        host, port = c.str("host"), c.int("port", 0, 65535)
        scope["server"] = (host, port)
        want["SERVER_NAME"], want["SERVER_PORT"] = host, port
    elif server is None:
        scope["server"] = None
    client = c.choose("client", ["absent", None, "given"])
    if client == "given":
        want["REMOTE_ADDR"] = c.str("client host")
        scope["client"] = (want["REMOTE_ADDR"], 1234)
    elif client is None:
        scope["client"] = None
    app = Wsgi("200 OK", [], [])
    before = dict(scope)
    sent, err, n = call(c, app, scope)
    c.check("the application is called once", len(app.environs) == 1 and err is None)
    e = app.environs[0]
    for k, v in want.items():
        c.check("environ: " + k, k in e and e[k] == v, (k, e.get(k), v))
    c.check("environ: nothing else about the request", {k for k in e if not k.startswith("wsgi.")} == {k for k in want if not k.startswith("wsgi.")}, e)
    c.check("the scope is kept", scope == before)


def cgi(name):
    n = name.decode("latin-1")
    if n == "content-length":
        return "CONTENT_LENGTH"
    if n == "content-type":
        return "CONTENT_TYPE"
    return ("HTTP_" + n).upper().replace("-", "_")


def header(c):
    """a header of any name"""
    name = c.bytes("name", re="[a-z]+(-[a-z]+)*", ex=[b"content-length", b"content-type", b"content-language", b"cookie", b"x-a-b"])
    value = c.bytes("value", ex=[b"", b"v", b"a,b", b"\xe9"])
    app = Wsgi("200 OK", [], [])
    call(c, app, a_scope(c, headers=[(name, value)]))
    e = app.environs[0]
    c.check("a header under its CGI name", e.get(cgi(name)) == value.decode("latin-1"), (name, e))
    if name == b"content-length":
        c.check("the length under its own name only", "HTTP_CONTENT_LENGTH" not in e)


def headers(c):
    """repeated names are joined in order"""
    c.bound("at most 3 headers, names listed")
    n = c.choose("number of headers", [1, 2, 3])
    known = [b"content-length", b"content-type", b"cookie", b"x-a-b", b"http-x-a"]
    hs = []
    for i in range(n):
        hs.append((c.choose(f"name {i}", known if i == 0 else [hs[0][0], b"accept"] + ([hs[1][0]] if i == 2 else [])), c.bytes(f"value {i}", ex=[b"", b"v", b"a,b", b"\xe9"])))
    app = Wsgi("200 OK", [], [])
    call(c, app, a_scope(c, headers=hs))
    e = app.environs[0]
    want = {}
    for name, value in hs:
        k = cgi(name)
        v = value.decode("latin-1")
        want[k] = want[k] + "," + v if k in want else v
    got = {k: e[k] for k in e if k.startswith("HTTP_") or k.startswith("CONTENT_")}
    c.check("every header under its CGI name, values joined in order", got == want, (got, want))


def body(c):
    """the request body, however it is cut"""
    c.bound("at most 4 messages")
    msgs, whole = [], b""
    n = c.choose("messages", [1, 2, 3, 4])
    for i in range(n):
        m = {"type": "http.request"}
        if c.bool(f"has body {i}"):
            m["body"] = c.bytes(f"body {i}", ex=[b"", b"a"])
            whole = whole + m["body"]
        if i + 1 < n:
            m["more_body"] = True
        elif c.bool("explicit end"):
            m["more_body"] = False
        msgs.append(m)
    app = Wsgi("200 OK", [], [])
    sent, err, read = call(c, app, a_scope(c), msgs + [{"type": "http.request", "body": b"beyond the end"}])
    c.check("the body is all received chunks", app.bodies == [whole], (app.bodies, whole))
    c.check("exactly the request's messages are read", read == n)


def response(c):
    """status, headers and chunks"""
    c.bound("at most 3 chunks")
    code = c.int("status", 100, 999, ex=[200, 404])
    reason = c.str("reason", ex=["OK", "Not Found", ""])
    n = c.choose("chunks", [0, 1, 2, 3])
    chunks = [c.bytes(f"chunk {i}", ex=[b"", b"x"]) for i in range(n)]
    hs = c.list("headers", lambda c, n: (c.str(n + " name", re="[A-Za-z0-9-]+", alpha=ASCII, ex=["X-A", "Set-Cookie", "Content-Type"]),
                                         c.str(n + " value", re="[!-~]+( [!-~]+)*", alpha=ASCII, ex=["v", "a b"])))
    kind = c.choose("application", ["returns a list", "generates", "reports an error", "reports an error late"])
    err = Err("x")
    info = (Err, err, None)
    app = Wsgi(str(code) + " " + reason, hs, chunks, exc_info=info if kind == "reports an error" else None,
               lazy=kind in ("generates", "reports an error late"), again=info if kind == "reports an error late" else None)
    sent, got, _ = call(c, app, a_scope(c))
    c.check("one start, the chunks, one end", len(sent) == n + 2, sent)
    c.check("the status", sent[0]["type"] == "http.response.start" and sent[0]["status"] == code, sent[0])
    same_list(c, "the headers, in order", sent[0]["headers"], mapped(hs, lambda p: (p[0].lower().encode("ascii"), p[1].encode("ascii"))))
    for i in range(n):
        m = sent[i + 1]
        c.check("every chunk once, in order", m["type"] == "http.response.body" and m["body"] == chunks[i] and m["more_body"] is True, m)
    m = sent[n + 1]
    c.check("one final empty body message", m["type"] == "http.response.body" and m.get("body", b"") == b"" and not m.get("more_body", False), m)
    if kind == "reports an error" or (kind == "reports an error late" and n >= 2):
        c.check("the reported error is raised", got is err, got)
    else:
        c.check("no error", got is None, got)


class Joining(Loop):
    """for an arbitrary CGI name: before header i the environ holds, under that name, what the headers so far come to"""

    def __init__(self, key, headers):
        self.key, self.headers, self.value, self.generic = key, headers, None, False

    def init(self, L):
        names = [n for n in L.mutated if isinstance(L.vars.get(n), dict) and "REQUEST_METHOD" in L.vars[n]]
        if len(names) != 1:
            self.c.give_up("the environ is built otherwise")
        self.var = names[0]

    def gen(self, L, i):
        self.generic = True
        self.value = self.c.str("value so far", alpha=LATIN1) if self.c.bool("present so far") else None
        return {self.var: around(self.c, self.key, [] if self.value is None else [(self.key, self.value)])}

    def check(self, L, i):
        got = L.vars[self.var]
        if not self.generic:
            self.c.check("inv: no header at the start", self.key not in got)
            return
        want = self.value
        name, value = L.seg.outs(L.i)[0]
        if cgi(name) == self.key:
            v = value.decode("latin-1")
            want = v if want is None else want + "," + v
        now = got.get(self.key)
        self.c.check("values under one CGI name are joined in order", now is None if want is None else (now is not None and now == want), (name, value))


def any_headers(c):
    """any number of headers of any names: an arbitrary environ entry"""
    key = c.str("any CGI name", re="HTTP_[A-Z]+(_[A-Z]+)*|CONTENT_(TYPE|LENGTH)", ex=["HTTP_COOKIE", "CONTENT_TYPE", "HTTP_X_A"])
    hs = c.list("headers", lambda c, n: (c.bytes(n + " name", re="[a-z]+(-[a-z]+)*", ex=[b"cookie", b"content-type", b"x-a"]),
                                         c.bytes(n + " value", ex=[b"", b"v", b"a,b", b"\xe9"])))
    loop = Joining(key, hs)
    c.loop("starlette.middleware.wsgi:build_environ#0", loop)
    app = Wsgi("200 OK", [], [])
    call(c, app, a_scope(c, headers=hs))
    got = app.environs[0].get(key)
    if loop.generic:
        want = loop.value
    else:
        want = None
        for name, value in hs:
            if cgi(name) == key:
                v = value.decode("latin-1")
                want = v if want is None else want + "," + v
    c.check("the environ has the joined values of the headers of that name", got is None if want is None else (got is not None and got == want), (got, want))


class Incoming:
    """the server's side of receive: any number of messages, the last one final; a ghost adds up their bodies"""
    _ghost_ok = True

    def __init__(self, c):
        self.c, self.total, self.done, self.n = c, b"", False, 0

    async def __call__(self):
        c = self.c
        c.check("nothing is read past the last message", not self.done)
        m = {"type": "http.request"}
        if c.bool("has body"):
            m["body"] = c.bytes("body", ex=[b"", b"a", b"bc"])
            self.total = self.total + m["body"]
        self.n += 1
        if (c.mode == "proof" or self.n < 4) and c.bool("more"):
            m["more_body"] = True
        else:
            self.done = True
            if c.bool("explicit end"):
                m["more_body"] = False
        return m


class Gathering(Loop):
    """what was read so far is what the server sent so far, and the loop goes on exactly until the last message"""

    def __init__(self, src):
        self.src = src

    def init(self, L):
        self.texts = [n for n in L.assigned if n in L.frame.f_locals and isinstance(L.vars[n], bytes)]
        self.flags = [n for n in L.assigned if n in L.frame.f_locals and isinstance(L.vars[n], bool)]
        if len(self.texts) != 1 or len(self.flags) != 1:
            self.c.give_up("the body is gathered otherwise")
        self.sign = L.vars[self.flags[0]]                       # the flag's value while the loop goes on

    def gen(self, L, i):
        self.src.total = self.c.bytes("read so far")
        self.src.done = self.c.bool("complete")
        return {self.texts[0]: self.src.total, self.flags[0]: self.sign if not self.src.done else not self.sign}

    def check(self, L, i):
        self.c.check("the body so far is what was received so far", L.vars[self.texts[0]] == self.src.total)
        self.c.check("inv: until the last message", bool(L.vars[self.flags[0]]) == (self.sign if not self.src.done else not self.sign))


def any_body(c):
    """a body in any number of messages"""
    src = Incoming(c)
    c.loop("starlette.middleware.wsgi:WSGIResponder.__call__#0", Gathering(src))
    app, send = Wsgi("200 OK", [], []), Recorder()
    c.run(WSGIMiddleware(app)(a_scope(c), src, send), loop=True)
    c.check("the body is all received chunks", app.bodies == [src.total], (app.bodies, src.total))
    c.check("everything was read", src.done)


HARNESSES = [environ, header, headers, any_headers, body, any_body, response]
