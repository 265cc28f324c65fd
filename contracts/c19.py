"""C19: HTTPSRedirectMiddleware."""
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware

from contracts.common import *


def target_scope(c):
    kind = c.choose("type", ["http", "websocket", "lifespan"])
    if kind == "lifespan":
        return {"type": "lifespan"}, None
    scheme = c.choose("scheme", ["http", "https", "ws", "wss"])
    host = c.str("host", re=HOSTNAME, ex=["example.com", "a", "10.0.0.1", "Example.ORG"])
    if c.bool("ipv6"):
        host = "[" + c.choose("ip6", ["::1", "fe80::1", "2001:db8::5"]) + "]"
    path = "/" + c.str("path", re=PATH_TAIL, ex=["", "a/b", "x;y=1", "%20"])
    query = c.str("query", re=QUERY, ex=["", "a=1&b=2", "x=/?", "redirect=http://x:80"])
    port = c.opt("port", lambda c, n: c.int(n, lo=1, hi=65535, ex=[80, 443, 8080, 8443]))
    scope = {"type": kind, "scheme": scheme, "path": path, "query_string": query.encode("ascii"), "method": "GET", "root_path": ""}
    if c.bool("has host header"):
        hp = host if port is None else host + ":" + str(port)
        scope["headers"] = [(b"accept", b"*/*"), (b"host", hp.encode("latin-1"))]
        scope["server"] = None
        shown = port
    else:
        default = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]
        if port is None:
            port = default
        scope["headers"] = []
        scope["server"] = (host, port)
        shown = None if port == default else port
    return scope, (scheme, host, shown, path, query)


def redirect(c):
    """any scope: redirected exactly when insecure, to the same host, path and query"""
    scope, parts = target_scope(c)
    app, send = App(), Recorder()
    before = dict(scope)
    c.run(HTTPSRedirectMiddleware(app)(scope, no_receive, send))
    if parts is None or parts[0] in ("https", "wss"):
        c.check("secure or lifespan traffic reaches the application once", len(app.calls) == 1)
        c.check("secure traffic is passed through unchanged",
                app.calls[0][0] is scope and app.calls[0][1] is no_receive and app.calls[0][2] is send)
        c.check("the middleware sends nothing itself", send.sent == [])
        return
    scheme, host, port, path, query = parts
    c.check("an insecure request never reaches the application", app.calls == [])
    prefix = "websocket." if scope["type"] == "websocket" else ""
    status, headers, body = one_response(c, "redirect", send.sent, prefix)
    c.check("the answer is a 307 redirect", status == 307)
    loc = hdr(headers, b"location")
    c.check("exactly one Location", len(loc) == 1)
    netloc = host
    # the host name is case-insensitive: a dropped port may come with a lower-cased name
    if port is not None and not (port == 80 or port == 443):
        netloc = host + ":" + str(port)
    want = ("https" if scheme == "http" else "wss") + "://"
    tail = path
    if query != "":
        tail = path + "?" + query
    got = loc[0].decode("latin-1")
    c.check("Location is the same host, path and query over TLS",
            c.any([got == quote(want + netloc + tail, safe=URL_SAFE),
                   got == quote(want + netloc.lower() + tail, safe=URL_SAFE)]), got)


HARNESSES = [redirect]
