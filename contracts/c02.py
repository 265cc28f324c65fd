"""C02: a route matches exactly its template, and enforces its methods."""
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute

from contracts.common import *
from contracts.routes import *


def scope_of(kind, path, root=None):
    scope = {"type": kind, "method": "GET", "path": path, "headers": [], "query_string": b"", "scheme": "ws" if kind == "websocket" else "http",
             "server": ("h", 80)}
    if root is not None:
        scope["root_path"] = root
    return scope


def requested(c, ex):
    """-> request path, root path, and what is below the root path: any of them"""
    how = c.choose("path is", ["below the root path", "elsewhere", "beside", "without root path", "with empty root path"])
    rest = c.str("path", re="(/.*)?", ex=ex)
    if how == "without root path":
        return rest, None, rest
    if how == "with empty root path":
        return rest, "", rest
    root = c.str("root", re=r"(/[a-z]+)+", alpha=ASCII, ex=["/sub", "/f"])
    if how == "elsewhere":
        c.assume(not rest.startswith(root))
        return rest, root, rest
    if how == "beside":
        rest = root + c.str("more", re="[^/].*", ex=["x", "1/2", "0"])
        return rest, root, rest
    return root + rest, root, rest


def match(c):
    """every template of the list, any path"""
    c.bound("the listed templates: every convertor, up to 3 parameters, literals with every regex metacharacter")
    pieces = c.choose("template", TEMPLATES)
    rest = c.str("path", re="(/.*)?", ex=examples(pieces))
    one(c, pieces, template(pieces, TEMPLATES.index(pieces) % 2 == 0), rest, None, rest, False, "http", None)


def connections(c):
    """either kind of route, any connection, root path and enclosing parameters"""
    pieces = ["/", ("a", "int")]
    path, root, rest = requested(c, examples(pieces))
    outer = c.choose("outer parameters", [None, {"outer": 1, "a": "outer a"}])
    one(c, pieces, template(pieces), path, root, rest, c.bool("websocket route"), c.choose("type", ["http", "websocket"]), outer)


def one(c, pieces, text, path, root, rest, ws_route, kind, outer):
    scope = scope_of(kind, path, root)
    if outer is not None:
        scope["path_params"] = outer
    got, send = [], Recorder()

    async def http_endpoint(request):
        got.append(request.path_params)
        return PlainTextResponse("ok")

    async def ws_endpoint(socket):
        got.append(socket.path_params)
    route = WebSocketRoute(text, ws_endpoint) if ws_route else Route(text, http_endpoint)
    c.run(route(scope, no_receive, send))
    if kind == ("websocket" if ws_route else "http") and c.matches(rest, language(pieces)):
        c.check("an instance of the template reaches the endpoint once", len(got) == 1, (path, got))
        own = {k: v for k, v in got[0].items() if k in [p[0] for p in pieces if isinstance(p, tuple)]}
        others = {k: v for k, v in got[0].items() if k not in own}
        c.check("enclosing parameters are kept", others == {k: v for k, v in (outer or {}).items() if k not in own}, others)
        if unique(pieces):
            t = texts(pieces, rest)
            c.check("exactly the template's parameters", set(own) == set(t), own)
            for p in pieces:
                if isinstance(p, tuple):
                    c.check("each with its converted text", own[p[0]] == CONVERT[p[1]](t[p[0]]), (p, own, t))
                    c.check("of the convertor's type", isinstance(own[p[0]], {"str": str, "path": str, "int": int, "float": float, "uuid": uuid.UUID}[p[1]]))
        else:
            back = ""
            for p in pieces:
                back = back + (p if isinstance(p, str) else own[p[0]])
                if isinstance(p, tuple):
                    c.check("a text of the convertor", c.matches(own[p[0]], LANG[p[1]]))
            c.check("the parameters' texts make up the path", back == rest, (own, rest))
    else:
        c.check("anything else does not reach it", got == [], (path, got))
        if kind == "http":
            c.check("404", len(send.sent) == 2 and send.sent[0]["status"] == 404, send.sent)
        else:
            c.check("closed", len(send.sent) == 1 and send.sent[0]["type"] == "websocket.close", send.sent)


def literal(c):
    """any literal text around at most one parameter"""
    before = "/" + c.str("before", re=r"[^{}]*", ex=["", "a/", "a.b", "x+", "(", "\n", "\u20ac$"])
    after = c.str("after", re=r"[^{}]*", ex=["", "/", ".html", "$", "\\d", "/a*"])
    typ = c.choose("parameter", [None, "str", "int", "path", "uuid", "float"])
    text = before + after if typ is None else before + "{p:" + typ + "}" + after
    lang = "" if typ is None else LANG[typ]
    got, send = [], Recorder()

    async def endpoint(request):
        got.append(request.path_params)
        return PlainTextResponse("ok")
    route = Route(text, endpoint)
    if c.choose("path", ["begins and ends like the template", "does not"]) == "does not":
        path = c.str("other", ex=["/", "/a/", "/a.b", "/axb"])
        c.assume(not (len(path) >= len(before) + len(after) and path.startswith(before) and path.endswith(after)))
        c.run(route(scope_of("http", path, ""), no_receive, send))
        c.check("another path is not matched", got == [] and send.sent[0]["status"] == 404, (text, path))
        return
    p = c.str("text", ex=["", "x", "7", "a/b", U])
    path = before + p + after
    c.run(route(scope_of("http", path, ""), no_receive, send))
    if c.matches(p, lang):
        c.check("an instance is matched, with its parameter", len(got) == 1 and got[0] == ({} if typ is None else {"p": CONVERT[typ](p)}), (text, path, got))
    else:
        c.check("no other text is", got == [] and send.sent[0]["status"] == 404, (text, path))


def methods(c):
    """any method against any set of methods: 405 with the allowed ones"""
    given = c.choose("methods", ["default", "none", "list"])
    if given == "list":
        ms = c.list("method list", lambda c, n: c.str(n, re=TOKEN, alpha=ASCII, ex=["GET", "post", "Put", "HEAD", "PURGE"]))
    method = c.str("method", re="[A-Z]+", alpha=ASCII, ex=["GET", "HEAD", "POST", "PUT", "PURGE", "OPTIONS"])
    got, send = [], Recorder()

    async def endpoint(request):
        got.append(request.method)
        return PlainTextResponse("ok")

    class ASGI:
        async def __call__(self, scope, receive, send):
            got.append(scope["method"])
    if given == "none":
        route = Route("/a", ASGI())
    elif given == "default":
        route = Route("/a", endpoint)
    else:
        route = Route("/a", endpoint if c.bool("function endpoint") else ASGI(), methods=ms)
    scope = scope_of("http", "/a", "")
    scope["method"] = method
    if given == "none":
        allowed = True
    elif given == "default":
        allowed = method == "GET" or method == "HEAD"
    else:
        has = lambda m: seq_any(ms, lambda x: x.upper() == m)
        allowed = c.length(ms) == 0 or has(method) or (method == "HEAD" and has("GET"))
    in_app = c.bool("inside an application")
    if in_app:
        scope["app"] = "the application"
    raised = None
    try:
        c.run((Router([route]) if c.bool("in a router") else route)(scope, no_receive, send))
    except HTTPException as e:
        raised = e
    if allowed:
        c.check("an allowed method reaches the endpoint once", got == [method] and raised is None, got)
        return
    c.check("any other method never does", got == [], got)
    if in_app:
        c.check("405 for the application's handlers", raised is not None and raised.status_code == 405 and send.sent == [])
        allow = raised.headers["Allow"]
    else:
        c.check("no error is raised", raised is None)
        status, headers, body = one_response(c, "405", send.sent)
        c.check("405", status == 405)
        a = hdr(headers, b"allow")
        c.check("one Allow header", len(a) == 1)
        allow = a[0].decode("latin-1")
    listed = allow.split(", ")
    m = c.str("any method", re=TOKEN, alpha=ASCII, ex=["GET", "HEAD", "POST", "PUT", "PURGE"])
    if given == "list":
        want = has(m) or (m == "HEAD" and has("GET"))
    else:
        want = m == "GET" or m == "HEAD"
    c.check("Allow lists exactly the allowed methods", (m in listed) == want, (allow, m))


HARNESSES = [match, connections, literal, methods]
