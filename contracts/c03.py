"""C03: reverse lookup gives a path that the same route matches, with the same parameters."""
from starlette.applications import Starlette
from starlette.requests import Request
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute

from contracts.common import *
from contracts.routes import *

SEGMENTS = [
    ["/"],
    ["/a.b/c+d/"],
    ["/x(y)[z]|$^*?\\-&~# /{0}/{}"],
    ["/", ("a", "str")],
    ["/u/", ("id", "int"), "/"],
    ["/", ("u", "uuid"), "/e"],
    ["/f/", ("p", "path")],
    ["/", ("a", "str"), "/", ("b", "int")],
    ["/", ("b", "str"), "/", ("a", "str"), "/", ("ab", "str"), "/z"],
    ["/", ("a", "int"), "/{}{b:/", ("b", "str"), "/", ("path", "path")],
]
VALUE = {"str": "[^/]+", "path": r"[^\n]*"}


def value(c, p, prefix=""):
    name, typ = p
    if typ == "int":
        return c.int(prefix + name, 0)
    if typ == "uuid":
        return uuid.UUID(c.str(prefix + name, re="[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", alpha=ASCII, ex=[U]))
    return c.str(prefix + name, re=VALUE[typ], ex=SAMPLE[typ] + ["{a}", "{b:int}", "{path}", "{}", "%7Ba%7D"] if typ == "str" else ["", "x", "a/b", "/", "{a}/{b}", "{path}"])


def values(c, pieces, prefix=""):
    return {p[0]: value(c, p, prefix) for p in pieces if isinstance(p, tuple)}


def instance(pieces, vals):
    return "".join([p if isinstance(p, str) else str(vals[p[0]]) for p in pieces])


class Endpoint:
    def __init__(self, got):
        self.got = got

    async def __call__(self, conn):
        self.got.append(conn.path_params)
        return Nothing()


class Nothing:
    async def __call__(self, scope, receive, send):
        pass


def make(kind, text, got, name):
    e = Endpoint(got)

    async def endpoint(conn):
        return await e(conn)
    return WebSocketRoute(text, endpoint, name=name) if kind == "websocket" else Route(text, endpoint, name=name)


def visit(c, app, kind, path):
    """the request for the path"""
    c.run(app({"type": kind, "method": "GET", "path": path, "headers": [], "query_string": b"", "scheme": "http", "server": ("h", 80)},
              no_receive, Recorder()))


def lookup(c, target, name, params):
    try:
        return target.url_path_for(name, **params)
    except NoMatchFound:
        return None


def route(c):
    """every template of the list, any accepted values"""
    c.aligned_matching = True
    c.bound("the listed templates: up to 3 parameters, every whole-segment convertor, literals with braces and regex metacharacters")
    pieces = c.choose("template", SEGMENTS)
    kind = c.choose("kind", ["http", "websocket"])
    got = []
    r = make(kind, template(pieces, SEGMENTS.index(pieces) % 2 == 0), got, "r")
    vals = values(c, pieces)
    given = dict(vals)
    url = lookup(c, r, "r", given)
    c.check("the lookup succeeds", url is not None, vals)
    c.check("each parameter's text is substituted once, verbatim", url == instance(pieces, vals), (url, vals))
    c.check("the protocol is the route's", url.protocol == kind and url.host == "")
    c.check("the caller's values are kept", given == vals)
    visit(c, r, kind, str(url))
    c.check("the route matches it, with equal parameters", got == [vals], (url, got, vals))


def names(c):
    """any names; parameter sets that differ by one"""
    c.bound("parameter sets: the expected ones, one less, one more, one renamed")
    name = c.str("route name", re=".+", ex=["r", "user", "a:b", ""])
    asked = c.str("asked name", ex=["r", "user", "a:b", "", "R"])
    got = []
    r = make(c.choose("kind", ["http", "websocket"]), "/{a}/{b:int}", got, name)
    vals = {"a": c.str("a", re="[^/]+"), "b": c.int("b", 0)}
    change = c.choose("parameters", ["expected", "less", "none", "more", "renamed"])
    if change in ("less", "renamed"):
        vals.pop("a")
    if change == "none":
        vals = {}
    if change in ("more", "renamed"):
        vals["c"] = "x"
    target = c.choose("through", [r, Router([r]), Starlette(routes=[r])])
    url = lookup(c, target, asked, vals)
    if asked == name and change == "expected":
        c.check("found", url is not None and url == "/" + vals["a"] + "/" + str(vals["b"]), (url, vals))
    else:
        c.check("no-match error", url is None, (name, asked, vals, url))


def rejected(c):
    """values the convertor does not accept yield no URL"""
    typ = c.choose("type", ["str", "int"])
    r = make("http", "/{a:" + typ + "}", [], "r")
    v = c.str("text", re="([^/]*/.*)?", ex=["", "/", "a/b"]) if typ == "str" else c.int("number", None, -1)
    try:
        url = r.url_path_for("r", a=v)
    except AssertionError:
        url = None
    c.check("no URL", url is None, v)


OUTER = [["/m"], ["/", ("x", "int")], ["/", ("x", "str"), "/n"], [], ["/", ("u", "uuid")]]
INNER = [["/"], ["/", ("y", "str")], ["/", ("y", "int"), "/", ("z", "str")], ["/f/", ("path", "path")]]


def mounted(c):
    """through mounts, named or not"""
    c.aligned_matching = True
    c.bound("the listed prefixes and inner templates, one or two levels")
    p1 = c.choose("outer prefix", OUTER)
    p2 = c.choose("inner template", INNER)
    named = c.choose("mount name", ["m", None])
    deep = c.bool("two levels")
    kind = "http" if deep == (named is None) else "websocket"
    got, decoy = [], []
    inner = [make(kind, "/decoy/{y}/{q}", decoy, "r"), make(kind, "/other" + template(p2), decoy, "other"), make(kind, template(p2), got, "r")]
    name = "r"
    if deep:
        inner = [Mount("/l2", routes=inner, name="l2")]
        name = "l2:r"
    if named is not None:
        name = named + ":" + name
    app = (Router if named else lambda routes: Starlette(routes=routes))([Mount("/zz/zz/zz", routes=[], name="zz"), Mount(template(p1), routes=inner, name=named)])
    pieces = p1 + (["/l2"] if deep else []) + p2
    vals = values(c, pieces)
    url = lookup(c, app, name, dict(vals))
    c.check("the lookup succeeds", url is not None, vals)
    c.check("mount prefix and route path, each parameter substituted once", url == instance(pieces, vals), (url, vals))
    c.check("the protocol is the route's", url.protocol == kind)
    if c.matches(url, r"[^\n]*"):      # mounts do not match newlines
        visit(c, app, kind, str(url))
        c.check("the route is reached with equal parameters", got == [vals] and decoy == [], (url, got, vals))


def mount_itself(c):
    """the lookup of a mount by its own name"""
    c.aligned_matching = True
    pieces = c.choose("prefix", OUTER)
    vals = values(c, pieces)
    path = c.str("path", re=r"([^/\n][^\n]*)?", ex=["", "x", "a/b/", "{x}", "{path}"])
    got = []

    class Child:
        async def __call__(self, scope, receive, send):
            got.append((scope["path_params"], scope["path"], scope["root_path"]))
    app = Router([Mount(template(pieces), app=Child(), name="m")])
    change = c.choose("parameters", ["expected", "more", "without path", "other name"])
    params = {**vals, "path": ("/" if c.bool("slash") else "") + path}
    if change == "more":
        params["more"] = 1
    if change == "without path":
        params.pop("path")
    url = lookup(c, app, "other" if change == "other name" else "m", params)
    if change == "expected":
        c.check("prefix and path", url is not None and url == instance(pieces, vals) + "/" + path, (url, vals, path))
        if c.matches(url, r"[^\n]*"):
            visit(c, app, "http", str(url))
            c.check("the mounted application is reached with equal parameters", len(got) == 1 and got[0][0] == vals, (got, vals))
            c.check("and routes on the path", got[0][1] == got[0][2] + "/" + path, got)
    else:
        c.check("no-match error", url is None, url)


def mount_names(c):
    """any name looked up in a mount"""
    c.aligned_matching = True
    asked = c.str("asked name", ex=["m:r", "m", "r", "m:", "m:m:r", ":r", "m:s", "mm:r", "m::r"])
    mname = c.choose("mount name", ["m", None, ""])
    app = Router([Mount("/p", routes=[make("http", "/r", [], "r"), make("http", "/s", [], "m:s")], name=mname)])
    url = lookup(c, app, asked, {})
    pre = "" if mname is None else mname + ":"
    if asked == pre + "r":
        c.check("found", url is not None and url == "/p/r", url)
    elif asked == pre + "m:s":
        c.check("found", url is not None and url == "/p/s", url)
    else:
        c.check("no-match error", url is None, (asked, url))


def first(c):
    """of several routes of the same name, the first that has the asked parameters"""
    c.aligned_matching = True
    kinds = [c.choose(f"parameters {i}", ["", "/{a}", "/{a}/{b:int}"]) for i in range(3)]
    app = Router([make("http", f"/{i}" + k, [], "r" if c.bool(f"named {i}") else "s") for i, k in enumerate(kinds)])
    names_ = [r.name for r in app.routes]
    ask = c.choose("ask", [{}, {"a": "v"}, {"a": "v", "b": 7}, {"b": 7}])
    url = lookup(c, app, "r", dict(ask))
    want = [f"/{i}" + k.replace("{a}", "v").replace("{b:int}", "7") for i, k in enumerate(kinds)
            if names_[i] == "r" and set(ask) == {"": set(), "/{a}": {"a"}, "/{a}/{b:int}": {"a", "b"}}[k]]
    if want:
        c.check("the first one", url is not None and url == want[0], (url, want))
    else:
        c.check("no-match error", url is None, url)


def host(c):
    """through named hosts"""
    c.aligned_matching = True
    sub = c.str("sub", re="[^/]+", ex=["www", "{sub}", "a.b"])
    a = c.str("a", re="[^/]+", ex=["x", "{sub}"])
    named = c.choose("name", ["h", None])
    app = Router([Host("{sub}.example.org", Router([make("http", "/{a}", [], "r")]), name=named)])
    which = c.choose("ask", ["route", "host", "unknown", "missing"])
    if which == "host":
        url = lookup(c, app, "h", {"sub": sub, "path": "/p"})
        if named is None:
            c.check("no-match error", url is None, url)
        else:
            c.check("host and path", url is not None and url == "/p" and url.host == sub + ".example.org", url)
        return
    name = ("h:" if named else "") + ("r" if which != "unknown" else "q")
    url = lookup(c, app, name, {"sub": sub, **({"a": a} if which != "missing" else {})})
    if which == "route":
        c.check("host and path of the route", url is not None and url == "/" + a and url.host == sub + ".example.org" and url.protocol == "http", url)
    else:
        c.check("no-match error", url is None, url)


HARNESSES = [route, names, rejected, mounted, mount_itself, mount_names, first, host]
