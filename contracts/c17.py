"""C17: SessionMiddleware."""
import itsdangerous
import json
import time
from base64 import b64decode, b64encode

from starlette.datastructures import Secret
from starlette.middleware.sessions import SessionMiddleware
from starlette.requests import HTTPConnection

from contracts.common import *

ATTR = r"/[!-:<-~]*"


class Signer:
    """assumed contract of itsdangerous.TimestampSigner: a signed value is the value, ".", and a token without ";"; exactly the values
    signed with the same key and no older than max_age verify, and give the value back"""
    issued = []

    def __init__(self, secret, *a, **k):
        self.secret = secret

    def sign(self, value, age=0):
        c = Signer.c
        token = c.bytes("token", re=r"[A-Za-z0-9_-]+\.[A-Za-z0-9_-]+")
        if isinstance(value, str):
            value = value.encode("utf-8")
        signed = value + b"." + token
        for s, v, secret, a in Signer.issued:
            if not (v == value and secret == self.secret):
                c.assume(s != signed)
        Signer.issued.append((signed, value, self.secret, age))
        return signed

    def unsign(self, signed, max_age=None, return_timestamp=False):
        if isinstance(signed, str):
            signed = signed.encode("utf-8")
        for s, value, secret, age in Signer.issued:
            if s == signed and secret == self.secret:
                if max_age is not None and age > max_age:
                    raise itsdangerous.SignatureExpired("expired")
                return value
        raise itsdangerous.BadTimeSignature("no signature")


def crypto(c):
    if c.symbolic:
        Signer.c = c
        Signer.issued = []
        c.stub("itsdangerous:TimestampSigner", Signer)


def sign(c, secret, value, age):
    """a value signed `age` seconds ago"""
    s = itsdangerous.TimestampSigner(secret)
    if c.symbolic:
        return s.sign(value, age)

    class Past(itsdangerous.TimestampSigner):
        def get_timestamp(self):
            return int(time.time()) - age
    return Past(secret).sign(value)


def verified(secret, value):
    """the session a cookie value carries, or None"""
    try:
        return json.loads(b64decode(itsdangerous.TimestampSigner(secret).unsign(value)))
    except itsdangerous.BadSignature:
        return None


def session_value(c, name, simple=False):
    v = c.str(name + " value", ex=["", "x", "caf\xe9", ";", "\u20ac"])
    if simple:
        return {"user": v}
    return c.choose(name, [{"user": v}, {"a": 1, "b": ["x", None, {"c": v}]}, {"n": 0, "v": v}])


class Config:
    pass


def config(c, simple=False):
    f = Config()
    f.path, f.same_site, f.https_only, f.domain, f.wrapped = "/", "lax", False, None, False
    f.secret = c.str("secret", alpha=ASCII, ex=["s3cret", "k"])
    c.assume(f.secret != "")
    f.name = c.str("cookie name", re=TOKEN, alpha=ASCII, ex=["session", "sid"])
    f.max_age = c.opt("max_age", lambda c, n: c.int(n, lo=1, ex=[1000, 14 * 24 * 3600]))
    if simple:
        return f
    f.wrapped = c.bool("secret given as Secret")
    f.path = c.str("path", re=ATTR, alpha=ASCII, ex=["/", "/app"])
    f.same_site = c.choose("same_site", ["lax", "strict", "none"])
    f.https_only = c.bool("https_only")
    f.domain = c.opt("domain", lambda c, n: c.str(n, re=r"[a-z0-9.-]+", alpha=ASCII, ex=["example.com"]))
    return f


def make(f, app):
    return SessionMiddleware(app, Secret(f.secret) if f.wrapped else f.secret, session_cookie=f.name, path=f.path, same_site=f.same_site,
                             https_only=f.https_only, domain=f.domain, max_age=f.max_age)


def attributes(header):
    parts = header.split(";")
    first = parts[0].partition("=")
    attrs = {}
    for p in parts[1:]:
        k, eq, v = p.strip().partition("=")
        attrs[k.lower()] = v if eq else None
    return first[0], first[2], attrs


def request(c, f, kind, simple=False):
    """-> scope, and the session the cookie carries (None: none that verifies)"""
    cookie = c.choose("cookie", ["none", "valid"] if simple else ["none", "valid", "old", "other key", "garbage", "unsigned"])
    scope = {"type": kind, "method": "GET", "path": "/", "headers": []}
    loaded = None
    if cookie != "none":
        content = session_value(c, "stored", simple)
        data = b64encode(json.dumps(content).encode("utf-8"))
        if cookie == "valid":
            value = sign(c, f.secret, data, c.choose("age", [0, 30]) if f.max_age is None or f.max_age > 100 else 0)
            loaded = content
        elif cookie == "old":
            age = 10 ** 6 if f.max_age is None else f.max_age + 100
            value = sign(c, f.secret, data, age)
            loaded = content if f.max_age is None else None
        elif cookie == "other key":
            other = c.str("other secret", alpha=ASCII, ex=["s3cre", "K"])
            c.assume(other != f.secret)
            c.assume(other != "")
            value = sign(c, other, data, 0)
        elif cookie == "garbage":
            value = c.bytes("garbage", re=r"[!#-+\--:<-\[\]-~]*", ex=[b"null", b"", b"a.b.c", b"e30="])
        else:
            value = data
        text = value.decode("latin-1")
        if c.symbolic:
            jar = {f.name: text}
            c.stub("starlette.requests:HTTPConnection.cookies", property(lambda self: jar if self.scope is scope else {}))
        scope["headers"] = [(b"cookie", b"x=1; " + f.name.encode("latin-1") + b"=" + value)]
        c.assume(f.name != "x")
    elif c.symbolic:
        c.stub("starlette.requests:HTTPConnection.cookies", property(lambda self: {}))
    return scope, loaded


def exchange(c):
    """one request through the middleware, any cookie and any use of the session"""
    one(c, c.choose("type", ["http", "websocket"]), config(c, True), c.choose("application", ["reads", "clears", "replaces", "adds"]), False)


def cookie_attributes(c):
    """one request through the middleware, any configuration"""
    one(c, "http", config(c), c.choose("application", ["clears", "adds"]), True)


def one(c, kind, f, action, simple):
    crypto(c)
    scope, loaded = request(c, f, kind, simple)
    new = session_value(c, "new", simple or action != "replaces")
    added = c.str("added value", ex=["1"])
    own = c.list("response headers", lambda c, n: (c.bytes(n + ".name", re=LTOKEN, ex=[b"set-cookie", b"x-a"]), c.bytes(n + ".value", ex=[b"1"])))
    before = list(own)
    start = {"type": "http.response.start" if kind == "http" else "websocket.http.response.start", "status": 200, "headers": own}
    if not simple and c.bool("no headers in the message"):
        del start["headers"]
        before = []
    body = {"type": "http.response.body", "body": b"x", "headers": "untouched"}
    seen, send, current = [], Recorder(), {}

    async def app(s, receive, send):
        c.check("the caller's scope and receive are passed on", s is scope and receive is no_receive)
        seen.append(s["session"])
        want = {} if loaded is None else loaded
        c.check("the session is the cookie's content if it verifies, else empty", s["session"] == want, (loaded,))
        if action == "clears":
            s["session"].clear()
        elif action == "replaces":
            s["session"] = new
        elif action == "adds":
            s["session"]["added"] = added
        current.update(s["session"])
        await send(start)
        s["session"]["later"] = "2"
        await send(body)
    c.run(make(f, app)(scope, no_receive, send))
    c.check("the application is called once", len(seen) == 1)
    c.check("its messages are passed on in order", len(send.sent) == 2 and send.sent[0] is start and send.sent[1] is body, send.sent)
    c.check("other messages are untouched", body == {"type": "http.response.body", "body": b"x", "headers": "untouched"} and start["status"] == 200)
    want = current
    headers = start.get("headers", [])
    if kind == "websocket" or (want == {} and loaded is None):
        same_list(c, "no cookie is set", headers, before)
        return
    n = c.length(before)
    c.check("exactly one header is added", c.length(headers) == n + 1)
    same_list(c, "the application's headers are kept", headers[:n], before)
    last = headers[n]
    c.check("it is a Set-Cookie header", last[0] == b"set-cookie")
    name, value, attrs = attributes(last[1].decode("latin-1"))
    c.check("it sets the configured cookie", name == f.name, (name, f.name))
    if want == {}:
        c.check("a cleared session gets an expired cookie", attrs.get("expires") == "Thu, 01 Jan 1970 00:00:00 GMT" and verified(f.secret, value) is None, attrs)
    else:
        got = verified(f.secret, value)
        c.check("it holds the signed current session", got == want, (got, want))
        c.check("it has the configured lifetime", attrs.get("max-age") == (None if f.max_age is None else str(f.max_age)), attrs)
        c.check("it does not expire at a date", "expires" not in attrs)
    c.check("configured path", attrs.get("path") == f.path, attrs)
    c.check("configured domain", ("domain" in attrs) == (f.domain is not None) and attrs.get("domain") == f.domain, attrs)
    c.check("HttpOnly", "httponly" in attrs and attrs["httponly"] is None, attrs)
    c.check("configured SameSite", attrs.get("samesite") == f.same_site, attrs)
    c.check("Secure exactly if configured", ("secure" in attrs) == f.https_only, attrs)


def two_requests(c):
    """a session written by one response is what the next request sees"""
    crypto(c)
    f = config(c)
    content = session_value(c, "content")
    got = []

    async def app(s, receive, send):
        got.append(dict(s["session"]))
        s["session"].update(content)
        await send({"type": "http.response.start", "status": 200, "headers": []})
        await send({"type": "http.response.body", "body": b""})
    mw = make(f, app)
    if c.symbolic:
        jar = {}
        c.stub("starlette.requests:HTTPConnection.cookies", property(lambda self: self.scope["jar"]))
    send = Recorder()
    c.run(mw({"type": "http", "method": "GET", "path": "/", "headers": [], "jar": {}}, no_receive, send))
    value = attributes(hdr(send.sent[0]["headers"], b"set-cookie")[0].decode("latin-1"))[1]
    other = make(f, app)
    c.run(other({"type": "http", "method": "GET", "path": "/", "headers": [(b"cookie", (f.name + "=" + value).encode("latin-1"))], "jar": {f.name: value}}, no_receive, Recorder()))
    c.check("a new visitor has an empty session", got[0] == {})
    c.check("the next request sees the session", got[1] == content, got)


def other_scopes(c):
    """other connections pass through"""
    f = config(c)
    calls = App()
    send = Recorder()
    scope = {"type": c.choose("type", ["lifespan", "other"])}
    c.run(SessionMiddleware(calls, "k")(scope, no_receive, send))
    c.check("other connection types pass", len(calls.calls) == 1 and calls.calls[0][0] is scope and "session" not in scope and send.sent == [])


HARNESSES = [exchange, cookie_attributes, two_requests, other_scopes]
