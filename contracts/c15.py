"""C15: CORSMiddleware."""
from starlette.middleware.cors import CORSMiddleware

from contracts.common import *

MOD = "starlette.middleware.cors:CORSMiddleware"
ORIGINS = ["https://a.example.org", "https://b.example.org", "http://a.example.org", "https://x.a.example.org", "null", "*", "https://a.example.org.evil",
           "evil-https://a.example.org"]
SAFE = ["accept", "accept-language", "content-language", "content-type"]
REGEX = r"https://[a-z]*\.example\.org"
ACAO, ACAC, VARY = b"access-control-allow-origin", b"access-control-allow-credentials", b"vary"
ACRM, ACRH = b"access-control-request-method", b"access-control-request-headers"


class Config:
    pass


def config(c, what):
    """any configuration, as far as `what` reads it"""
    f = Config()
    f.origins, f.regex, f.methods, f.headers, f.expose = ["https://a.example.org"], None, ["GET"], ["X-A"], []
    f.creds = c.bool("credentials")
    if what in ("simple", "pass", "origin"):
        f.origins = c.list("origins", lambda c, n: c.str(n, alpha=LATIN1, ex=ORIGINS))
        f.regex = c.choose("regex", [None, REGEX])
    if what in ("simple", "origin"):
        f.expose = c.choose("expose", [[], ["X-One", "X-Two"]])
    if what == "method":
        f.methods = c.list("methods", lambda c, n: c.str(n, re=TOKEN, alpha=ASCII, ex=["GET", "POST", "*", "get", "PURGE"]))
    if what == "headers":
        f.headers = c.list("allowed headers", lambda c, n: c.str(n, re=TOKEN, alpha=ASCII, ex=["X-A", "x-b", "*", "Accept"]))
    return f


def middleware(f, app):
    return CORSMiddleware(app, allow_origins=f.origins, allow_methods=f.methods, allow_headers=f.headers, allow_credentials=f.creds,
                          allow_origin_regex=f.regex, expose_headers=f.expose)


def any_origin(f):
    return seq_any(f.origins, lambda o: o == "*")


def allowed_origin(c, f, origin):
    if any_origin(f):
        return True
    if f.regex is not None and c.matches(origin, f.regex):
        return True
    return seq_any(f.origins, lambda o: o == origin)


def allowed_method(c, f, m):
    if seq_any(f.methods, lambda x: x == "*"):
        return c.any([x == m for x in ["DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"]])
    return seq_any(f.methods, lambda x: x == m)


def allowed_header(c, f, h):
    h = h.strip().lower()
    return c.any([a == h for a in SAFE]) or seq_any(f.headers, lambda a: a.lower() == h)


def all_headers(f):
    return seq_any(f.headers, lambda h: h == "*")


def request_headers(c, which, focus=None):
    """the CORS headers of a request, among another header; `focus` (or all of them) with an arbitrary value, the others one that is
    allowed or one that is not"""
    other = (c.bytes("other name", re=LTOKEN, ex=[b"x-a", b"host", b"x-origin", b"access-control-request-methods"]), c.bytes("other value", ex=[b"", b"1"]))
    for n in (b"origin", b"cookie", ACRM, ACRH):
        c.assume(other[0] != n)

    def value(name, options, ok, bad):
        if focus is None or focus == name:
            return c.bytes("requested " + name, ex=options)
        return c.choose("requested " + name, [ok, bad])
    raw = [other]
    if c.bool("cookie"):
        raw.append((b"cookie", c.bytes("cookie value", ex=[b"a=1"])))
    if which != "none":
        raw.append((b"origin", value("origin", [o.encode() for o in ORIGINS], b"https://a.example.org", b"https://b.example.org")))
    if which == "preflight":
        raw.append((ACRM, value("method", [b"GET", b"POST", b"DELETE", b"PURGE", b"*", b"get"], b"GET", b"POST")))
        if c.bool("headers requested"):
            raw.append((ACRH, value("headers", [b"X-A", b"x-a, X-B", b"accept,content-type", b"x-c", b"", b"x-a,,accept", b" Accept ", b"x-a x-b"],
                                    b"x-a, Accept", b"x-a, x-b")))
    return raw


def origin_headers(c, f, label, headers, origin, request, asp, explicit=False):
    """Access-Control-Allow-Origin: only for an allowed origin, as '*' or that origin; then Vary: Origin"""
    got = h_values(headers, ACAO)
    one = seq_first(got, lambda v: True)
    ok = allowed_origin(c, f, origin)
    if ok:
        c.check(f"{label}: an allowed origin gets the header", one is not None, origin)
        echoed = one == origin.encode("latin-1")
        c.check(f"{label}: '*' or exactly that origin", echoed or one == b"*", (one, origin))
        if not echoed:
            c.check(f"{label}: '*' only when any origin is allowed", any_origin(f), origin)
            c.check(f"{label}: never '*' where browsers refuse it", not explicit)
        same_list(c, f"{label}: once", got, [one])
        if one != b"*":
            vary = seq_first(headers, lambda p: p[0] == VARY)
            c.check(f"{label}: Vary includes Origin when the origin is echoed", vary is not None and vary[1].endswith(b"Origin"), vary)
    return ok


def preflight_origin(c):
    """preflights: any origin"""
    preflight(c, "origin", aspect(c, "status", "origin"))


def preflight_method(c):
    """preflights: any method"""
    preflight(c, "method", ["status"])


def preflight_headers(c):
    """preflights: any list of requested headers"""
    preflight(c, "headers", ["status"])


def preflight(c, focus, asp):
    """OPTIONS with a requested method is answered directly"""
    headers_by_contract(c, ordered=False)
    f = config(c, focus)
    raw = request_headers(c, "preflight", focus)
    scope = {"type": "http", "method": "OPTIONS", "path": "/", "headers": raw}
    first = lambda n: first_header(raw, n)
    app, send = App(), Recorder()
    mw = middleware(f, app)
    bad = lambda h: not allowed_header(c, f, h)
    if focus == "origin" and c.bool("after another request"):
        c.run(mw({"type": "http", "method": "OPTIONS", "path": "/", "headers": [(b"origin", c.choose("earlier origin", [b"https://a.example.org", b"https://b.example.org"])),
                                                                                (ACRM, b"GET"), (ACRH, b"accept")]}, no_receive, Recorder()))
    c.loop(MOD + ".preflight_response#0", FirstMatch(bad))
    c.run(mw(scope, no_receive, send))
    c.check("the application is not called", app.calls == [])
    status, headers, body = one_response(c, "preflight", send.sent)
    if "status" in asp:
        wanted = first(ACRH)
        ok = allowed_origin(c, f, first(b"origin")) and allowed_method(c, f, first(ACRM))
        if ok and wanted is not None and not all_headers(f):
            ok = not seq_any(wanted.split(","), bad)
        c.check("200 exactly when origin, method and every header are allowed, else 400", status == (200 if ok else 400), (status, wanted))
    if "origin" in asp:
        ok = origin_headers(c, f, "preflight", headers, first(b"origin"), raw, asp, explicit=f.creds)
        if not ok:
            c.check("preflight: a refused origin gets no allowance", not seq_any(headers, lambda p: p[0] == ACAO), headers)
        c.check("preflight: credentials advertised only if configured", seq_any(headers, lambda p: p[0] == ACAC) == f.creds)


class Responder:
    """an application that sends one start message with the given headers, then a body"""

    def __init__(self, headers):
        self.calls, self.messages = [], []
        self.start = {"type": "http.response.start", "status": 200}
        if headers is not None:
            self.start["headers"] = headers
        self.body = {"type": "http.response.body", "body": b"x"}

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive))
        await send(self.start)
        await send(self.body)


def simple_again(c):
    """the same where the application sent CORS or Vary headers itself"""
    simple(c, True)


def simple(c, again=False):
    """other requests with an Origin reach the application; its response gets the headers"""
    headers_by_contract(c, ordered=False)
    f = config(c, "simple" if not again else "pass")
    raw = request_headers(c, "simple")
    cookie = first_header(raw, b"cookie") is not None
    own = None
    if not again and c.bool("response has headers"):
        own = c.list("response headers", lambda c, n: (c.bytes(n + ".name", re=LTOKEN, ex=[b"vary", b"x-a", ACAO, b"content-type"]),
                                                       c.bytes(n + ".value", ex=[b"1", b"Accept", b"*"])))
    before = list(own) if own is not None else []
    asp = aspect(c, "passing", "origin", "vary", "others")
    app, send = Responder(own), Recorder()
    mw = middleware(f, app)
    if again:
        c.run(mw({"type": "http", "method": c.choose("earlier method", ["GET", "OPTIONS"]), "path": "/", "headers": [
            (b"origin", b"https://b.example.org"), (ACRM, b"GET"), (b"cookie", b"a=1")]}, no_receive, Recorder()))
        app.__init__(None)
    scope = {"type": "http", "method": c.str("method", re="[A-Z]+", ex=["GET", "POST", "OPTIONS"]), "path": "/", "headers": raw}
    origin = first_header(raw, b"origin")
    c.run(mw(scope, no_receive, send))
    c.check("the application is called once with the caller's scope", len(app.calls) == 1 and app.calls[0][0] is scope and app.calls[0][1] is no_receive)
    c.check("its messages arrive in order", len(send.sent) == 2 and send.sent[1] is app.body and send.sent[0]["type"] == "http.response.start", send.sent)
    headers = send.sent[0]["headers"]
    if "passing" in asp:
        c.check("status unchanged", send.sent[0]["status"] == 200)
        c.check("credentials are advertised if configured", not f.creds or seq_any(headers, lambda p: p[0] == ACAC))
        if not f.creds:
            same_list(c, "credentials are not advertised otherwise", h_values(headers, ACAC), h_values(before, ACAC))
    if "origin" in asp:
        ok = origin_headers(c, f, "response", headers, origin, raw, asp, explicit=cookie)
        if not ok:
            same_list(c, "response: a refused origin gets no allowance", h_values(headers, ACAO), h_values(before, ACAO), headers)
    if "vary" in asp:
        old = first_header(before, VARY)
        v = first_header(headers, VARY)
        c.check("Vary keeps the application's own fields", old is None or (v is not None and v.startswith(old)), (v, old))
    if "others" in asp:
        ours = [ACAO, ACAC, VARY, b"access-control-expose-headers"]
        mine = lambda p: p[0] not in ours
        same_list(c, "other response headers are unchanged", kept(headers, mine), kept(before, mine))


def no_origin(c):
    """requests without Origin, and other connections, pass through untouched"""
    headers_by_contract(c, ordered=False)
    f = config(c, "pass")
    kind = c.choose("type", ["http", "websocket", "lifespan"])
    raw = request_headers(c, "none" if kind == "http" else "preflight")
    if kind == "http" and c.bool("preflight header without Origin"):
        raw.append((ACRM, b"GET"))
    scope = {"type": kind, "method": c.str("method", re="[A-Z]+", ex=["GET", "OPTIONS"]), "path": "/", "headers": raw}
    app, send = App(), Recorder()
    c.run(middleware(f, app)(scope, no_receive, send))
    c.check("passed through untouched", len(app.calls) == 1 and app.calls[0][0] is scope and app.calls[0][1] is no_receive and app.calls[0][2] is send
            and send.sent == [])


HARNESSES = [preflight_origin, preflight_method, preflight_headers, simple, simple_again, no_origin]
NOTES = ["the configured regular expression is a representative one or absent", "request headers: each CORS header at most once"]
