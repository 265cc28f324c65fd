"""C01: Router dispatch."""
from starlette.exceptions import HTTPException
from starlette.routing import BaseRoute, Match, Router

from contracts.common import *

MOD = "starlette.routing:Router.app"


class Spec:
    """any route as the router may see it: what it answers for the requested path, and for another one"""

    def __init__(self, here, there, tag, log):
        self.here, self.there, self.tag, self.log = here, there, tag, log

    def outcome(self, scope):
        return self.here if scope["path"] == self.log.path else self.there

    def matches(self, scope):
        k = self.outcome(scope)
        if k == 0:
            return Match.NONE, {}
        return (Match.PARTIAL if k == 1 else Match.FULL), {"endpoint": self.tag, "path_params": {"tag": self.tag}}

    async def handle(self, scope, receive, send):
        self.log.handled.append((self, scope, dict(scope), receive, send))


class Log:
    def __init__(self):
        self.handled = []


def routes_list(c, log):
    return c.list("routes", lambda c, n: Spec(c.int(n + ".here", lo=0, hi=2, ex=[0, 1, 2]), c.int(n + ".there", lo=0, hi=2, ex=[0, 1, 2]),
                                              c.str(n + ".tag", ex=["a", "b", "c"]), log))


class Dispatch(Loop):
    """no earlier route matches fully; the remembered one is the first that matches partially"""

    def gen(self, L, i):
        L.none(lambda r: r.here == 2, i)
        p = L.first(lambda r: r.here == 1, i)
        if p is None:
            return {"partial": None}
        p = p[0]
        return {"partial": p, "partial_scope": {"endpoint": p.tag, "path_params": {"tag": p.tag}}}

    def check(self, L, i):
        c = self.c
        c.check("inv: no earlier route matches fully", not L.some(lambda r: r.here == 2, i))
        p = L.first(lambda r: r.here == 1, i)
        c.check("inv: the first partial match is remembered", (p is None) == (L.vars["partial"] is None))
        if p is not None:
            p = p[0]
            c.check("inv: it is the first", L.vars["partial"].tag == p.tag and L.vars["partial"].here == 1)
            c.check("inv: with its own scope", L.vars["partial_scope"] == {"endpoint": p.tag, "path_params": {"tag": p.tag}})


class Redirect(Loop):
    def gen(self, L, i):
        L.none(lambda r: r.there != 0, i)
        return {}

    def check(self, L, i):
        self.c.check("inv: no earlier route matches the toggled path", not L.some(lambda r: r.there != 0, i))


def request(c, kind):
    root = c.str("root", re=r"(/[a-z]+)?", ex=["", "/sub"])
    path = c.str("path", re="/" + PATH_TAIL, alpha=ASCII, ex=["/", "/a", "/a/", "/sub/a", "/sub/", "/sub", "//"])
    query = c.str("query", re=QUERY, alpha=ASCII, ex=["", "a=1"])
    scope = {"type": kind, "method": "GET", "path": path, "root_path": root, "headers": [(b"host", b"h.example")], "scheme": "http",
             "query_string": query.encode("ascii"), "server": ("h.example", 80), "path_params": {"outer": 1}, "extra": ["x"]}
    if kind == "websocket":
        scope["scheme"] = "ws"
    return scope


def below(path, root):
    """the path the routes see"""
    if root != "" and (path == root or path.startswith(root + "/")):
        return path[len(root):]
    return path


def toggled(path, routed):
    return path.rstrip("/") if routed.endswith("/") else path + "/"


def dispatch(c):
    """any number of routes of any kind: the first full match, else the first partial one, else the redirect, else the default"""
    log = Log()
    routes = routes_list(c, log)
    kind = c.choose("type", ["http", "websocket"])
    slashes = c.bool("redirect_slashes")
    scope = request(c, kind)
    given = dict(scope)
    log.path = scope["path"]
    c.loop(MOD + "#0", Dispatch())
    c.loop(MOD + "#1", Redirect())
    fallback, send = App(), Recorder()
    has_default = c.bool("own default")
    in_app = c.bool("inside an application")
    if in_app:
        scope["app"] = given["app"] = "the app"
    router = Router(routes, redirect_slashes=slashes, default=fallback if has_default else None)
    raised = None
    try:
        c.run(router(scope, no_receive, send))
    except HTTPException as e:
        raised = e
    want = seq_first(routes, lambda r: r.here == 2)
    if want is None:
        want = seq_first(routes, lambda r: r.here == 1)
    if want is not None:
        c.check("a matching route is handed the request, exactly once", len(log.handled) == 1 and fallback.calls == [] and send.sent == [] and raised is None, log.handled)
        route, s, snap, receive, snd = log.handled[0]
        c.check("it is the first full match, else the first partial one", route.tag == want.tag and route.here == want.here)
        c.check("it sees the caller's scope, receive and send", s is scope and receive is no_receive and snd is send)
        c.check("updated with its own child scope only", snap == {**given, "router": router, "endpoint": want.tag, "path_params": {"tag": want.tag}})
        return
    c.check("no route is handed a request it does not match", log.handled == [], log.handled)
    routed = below(given["path"], given["root_path"])
    target = toggled(given["path"], routed)
    if kind == "http" and slashes and routed != "/" and seq_any(routes, lambda r: (r.here if target == given["path"] else r.there) != 0):
        c.check("a redirect, and nothing else", fallback.calls == [] and raised is None)
        status, headers, body = one_response(c, "redirect", send.sent)
        loc = hdr(headers, b"location")
        q = given["query_string"].decode("ascii")
        url = "http://h.example" + target + ("?" + q if q != "" else "")
        c.check("to the slash-toggled path", status == 307 and len(loc) == 1 and loc[0].decode("latin-1") == quote(url, safe=URL_SAFE), (loc, url))
        return
    if has_default:
        c.check("otherwise the default handler", len(fallback.calls) == 1 and send.sent == [] and raised is None)
        c.check("with the caller's arguments", fallback.calls[0][0] is scope and fallback.calls[0][1] is no_receive and fallback.calls[0][2] is send)
    elif kind == "websocket":
        c.check("a websocket is closed", raised is None and len(send.sent) == 1 and send.sent[0]["type"] == "websocket.close", send.sent)
    elif in_app:
        c.check("inside an application the 404 is raised for its handlers", raised is not None and raised.status_code == 404 and send.sent == [])
    else:
        status, headers, body = one_response(c, "default", send.sent)
        c.check("404", status == 404 and raised is None)
    c.check("the scope is otherwise unchanged", scope == {**given, "router": router})


class Alone(BaseRoute):
    def __init__(self, spec):
        self.spec = spec

    def matches(self, scope):
        return self.spec.matches(scope)

    async def handle(self, scope, receive, send):
        await self.spec.handle(scope, receive, send)


def stand_alone(c):
    """one route run by itself"""
    log = Log()
    spec = Spec(c.int("here", lo=0, hi=2, ex=[0, 1, 2]), 0, c.str("tag"), log)
    kind = c.choose("type", ["http", "websocket"])
    scope = request(c, kind)
    given = dict(scope)
    log.path = scope["path"]
    send = Recorder()
    c.run(Alone(spec)(scope, no_receive, send))
    if spec.here == 0:
        c.check("a route that does not match does not run", log.handled == [])
        if kind == "http":
            status, headers, body = one_response(c, "no match", send.sent)
            c.check("404", status == 404)
        else:
            c.check("a websocket is closed", len(send.sent) == 1 and send.sent[0]["type"] == "websocket.close", send.sent)
        return
    c.check("a matching route runs exactly once", len(log.handled) == 1 and send.sent == [])
    _, s, snap, receive, snd = log.handled[0]
    c.check("with the caller's arguments", s is scope and receive is no_receive and snd is send)
    c.check("and its own child scope", snap == {**given, "endpoint": spec.tag, "path_params": {"tag": spec.tag}})


HARNESSES = [dispatch, stand_alone]
