"""C18: TrustedHostMiddleware."""
from starlette.middleware.trustedhost import TrustedHostMiddleware

from contracts.common import *
from engine.contract import Loop, seq_any, raises

HOST_RE = r"[A-Za-z0-9.-]*"
PORT_RE = r"(:[0-9]*)?"
MOD = "starlette.middleware.trustedhost:TrustedHostMiddleware"


def pattern(c, n):
    return c.str(n, re=r"\*|(\*\.)?[A-Za-z0-9.-]*", ex=["example.com", "www.example.com", "a.example.com", "b", "*", "*.example.com", "*.b"])


def matches(host, p):
    """the property's notion of `host` being allowed by a listed pattern"""
    if p == "*":
        return True
    if p.startswith("*."):
        return host.endswith(p[1:])
    return host == p


class InitLoop(Loop):
    pass


class HostLoop(Loop):
    """no pattern seen so far allows the host; the flag says whether "www." + host was seen"""

    def __init__(self, host):
        self.host = host
        self.hit = lambda p: matches(host, p)
        self.www = lambda p: "www." + host == p

    def gen(self, L, i):
        L.none(self.hit, i)
        return {"is_valid_host": False, "found_www_redirect": L.some(self.www, i)}

    def check(self, L, i):
        c = self.c
        c.check("inv: no earlier pattern allows the host", not L.some(self.hit, i))
        c.check("inv: is_valid_host is false while looping", not L.vars["is_valid_host"])
        c.check("inv: the www flag is exact", bool(L.vars["found_www_redirect"]) == L.some(self.www, i))


def request(c, host):
    kind = c.str("type", re="http|websocket")
    scheme = c.str("scheme", re="https?|wss?")
    scope = {"type": kind, "scheme": scheme, "method": "GET", "root_path": "", "server": ("srv.example", 8000),
             "path": "/" + c.str("path", re=PATH_TAIL, ex=["", "a"]),
             "query_string": c.str("query", re=QUERY, ex=["", "a=1"]).encode("ascii")}
    other = (c.bytes("other name", re=LTOKEN, ex=[b"x-forwarded-host", b"x-host", b"hos"]), c.bytes("other value"))
    c.assume(other[0] != b"host")
    scope["headers"] = [other] if host is None else [other, (b"host", host.encode("latin-1"))]
    return scope


def allow_list(c):
    """any list of patterns, any Host header"""
    hosts = c.list("allowed", pattern)
    has_host = c.bool("has host")
    name = c.str("host", re=HOST_RE, ex=["example.com", "www.example.com", "a.example.com", "x.b", "", "xexample.com"]) if has_host else ""
    port = c.str("port", re=PORT_RE, ex=["", ":80", ":8000", ":"]) if has_host else ""
    www = c.bool("www_redirect")
    scope = request(c, name + port if has_host else None)
    c.loop(MOD + ".__init__#0", InitLoop())
    c.loop(MOD + ".__call__#0", HostLoop(name))
    app, send = App(), Recorder()
    mw = TrustedHostMiddleware(app, hosts, www)
    c.run(mw(scope, no_receive, send))
    if app.calls != []:
        c.check("the application is called at most once", len(app.calls) == 1)
        c.check("it gets the caller's scope, receive and send",
                app.calls[0][0] is scope and app.calls[0][1] is no_receive and app.calls[0][2] is send)
        c.check("nothing else is sent", send.sent == [])
        c.check("the application is reached only by an allowed host", seq_any(hosts, lambda p: matches(name, p)), name)
        return
    c.check("an allowed host reaches the application", not seq_any(hosts, lambda p: matches(name, p)), name)
    prefix = "websocket." if scope["type"] == "websocket" else ""
    status, headers, body = one_response(c, "refusal", send.sent, prefix)
    redirected = www and seq_any(hosts, lambda p: p == "www." + name)
    if redirected:
        c.check("a www host is redirected", status == 307, status)
        loc = hdr(headers, b"location")
        tail = scope["path"]
        if scope["query_string"] != b"":
            tail = tail + "?" + scope["query_string"].decode("latin-1")
        if has_host:
            want = scope["scheme"] + "://www." + name + port + tail
            c.check("the redirect is to the same URL with www. prefixed", len(loc) == 1 and loc[0].decode("latin-1") == want, (loc, want))
    else:
        c.check("other hosts are refused with 400", status == 400, status)
        c.check("a refusal has no Location", hdr(headers, b"location") == [])


def other_scopes(c):
    """other connections pass through"""
    hosts = c.list("allowed", pattern, proof=False)
    app, send = App(), Recorder()
    mw = TrustedHostMiddleware(app, hosts, c.bool("www"))
    kind = c.str("type")
    c.assume(kind != "http")
    c.assume(kind != "websocket")
    scope = {"type": kind}
    c.run(mw(scope, no_receive, send))
    c.check("other connection types pass", len(app.calls) == 1 and app.calls[0][0] is scope and send.sent == [])


def any_by_default(c):
    """without a list, or with "*", every host is allowed"""
    app, send = App(), Recorder()
    mw = TrustedHostMiddleware(app)
    scope = request(c, c.opt("host", lambda c, n: c.str(n, alpha=1)))
    c.run(mw(scope, no_receive, send))
    c.check("without a list every host is allowed", len(app.calls) == 1 and send.sent == [])


def bad_pattern(c):
    """a pattern with '*' anywhere but in a leading '*.' is refused"""
    before = c.list("before", pattern, proof=False, max=1)
    p = c.str("pattern", alpha=1, ex=["*", "*.a", "*a", "a.*", "**", "*.*", "a", "*.", "", "a*b"])
    after = c.list("after", pattern, proof=False, max=1)
    valid = p == "*" or ("*" not in p) or (p.startswith("*.") and "*" not in p[1:])
    ok, e = raises(lambda: TrustedHostMiddleware(App(), before + [p] + after), AssertionError)
    c.check("exactly the invalid wildcard patterns are refused", ok == (not valid), p)


HARNESSES = [allow_list, other_scopes, any_by_default, bad_pattern]
