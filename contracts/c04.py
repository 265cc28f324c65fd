"""C04: mounts and hosts split the path without losing or inventing any of it."""
from starlette.applications import Starlette
from starlette.routing import Host, Mount, Route, Router

from contracts.common import *
from contracts.routes import *

PREFIXES = [
    [],
    ["/a"],
    ["/a.b/c+d"],
    ["/", ("x", "str")],
    ["/u/", ("id", "int")],
    ["/", ("a", "str"), "/", ("b", "int"), "/z"],
    ["/", ("u", "uuid")],
    ["/v", ("f", "float"), "/w"],
]


class Child:
    """the mounted application: records what it is given"""

    def __init__(self):
        self.seen = []

    async def __call__(self, scope, receive, send):
        self.seen.append((scope, dict(scope), receive, send))


def base(c, kind, path, root):
    scope = {"type": kind, "method": "GET", "path": path, "headers": [], "query_string": b"", "scheme": "ws" if kind == "websocket" else "http",
             "server": ("h", 80)}
    if root is not None:
        scope["root_path"] = root
    return scope


def roots(c):
    return c.choose("root", [None, "", c.str("root path", re="(/[a-z0-9.]+)+", alpha=ASCII, ex=["/sub", "/a", "/a/1"])])


def judge(c, child, send, scope, given, rest, pieces, outer, top):
    """the child application's view, against the request path below the root path"""
    root = given.get("root_path", "")
    accepted = c.matches(rest, language(pieces) + r"/[^\n]*")
    if not accepted:
        c.check("a path that does not start with an instance of the prefix and a slash is not accepted", child.seen == [], rest)
        c.check("it is not found", len(send.sent) > 0 and send.sent[0]["type"] in ("http.response.start", "websocket.close")
                and send.sent[0].get("status", 404) == 404, send.sent)
        return
    t = texts(pieces + ["/", ("path", "path")], rest)
    matched = "".join([p if isinstance(p, str) else t[p[0]] for p in pieces])
    c.check("the child application is called once", len(child.seen) == 1 and send.sent == [], rest)
    s, snap, receive, snd = child.seen[0]
    c.check("with the caller's receive and send", receive is no_receive and snd is send)
    c.check("the request path is kept", snap["path"] == given["path"])
    c.check("its root path is the parent's followed by the matched prefix", snap["root_path"] == root + matched, (snap["root_path"], root, matched))
    c.check("root path and rest make up the request path", snap["path"] == snap["root_path"] + "/" + t["path"], (snap, t))
    c.check("the top-level root path stays recorded", snap["app_root_path"] == top, snap)
    own = [p for p in pieces if isinstance(p, tuple)]
    want = dict(outer)
    for p in own:
        want[p[0]] = CONVERT[p[1]](t[p[0]])
    c.check("enclosing parameters are kept, its own are added", snap["path_params"] == want, (snap, want))
    same = [k for k in given if k not in ("root_path", "app_root_path", "path_params", "endpoint", "router", "app")]
    c.check("nothing else of the scope changes", c.all([snap[k] == given[k] for k in same]), snap)


def mount(c):
    """one mount, anywhere below others"""
    c.bound("the listed prefixes with parameters (any prefix without parameters: contract literal_mount)")
    pieces = c.choose("prefix", PREFIXES)
    root = roots(c)
    ex = examples(pieces + ["/", ("path", "path")])
    rest = c.str("path below the root path", re="(/.*)?", ex=ex)
    scope = base(c, c.choose("type", ["http", "websocket"]), ("" if root is None else root) + rest, root)
    outer = c.choose("outer parameters", [{}, {"outer": 1, "a": 2}])
    if outer:
        scope["path_params"] = outer
    top = "" if root is None else root
    if c.bool("below another mount"):
        top = scope["app_root_path"] = c.str("top root path", alpha=ASCII, ex=["", "/top"])
    given = dict(scope)
    child, send = Child(), Recorder()
    m = Mount(template(pieces) + ("/" if c.bool("trailing slash") else ""), app=child)
    c.run(m(scope, no_receive, send))
    judge(c, child, send, scope, given, rest, pieces, outer, top)


def literal_mount(c):
    """any prefix without parameters"""
    prefix = "/" + c.str("prefix", re=r"[^{}]*[^{}/]", ex=["a", "a/b", "x.y", "(", "a+$", "\u20ac"])
    child, send = Child(), Recorder()
    m = Mount(prefix, app=child)
    if c.bool("prefix"):
        rest = prefix + c.str("rest", ex=["", "/", "/a", "x", "x/", "//"])
    else:
        rest = c.str("path", re="/.*", ex=["/", "/a", "/aa/"])
        c.assume(not rest.startswith(prefix))
    scope = base(c, "http", rest, None)
    given = dict(scope)
    c.run(m(scope, no_receive, send))
    if rest.startswith(prefix) and c.matches(rest[len(prefix):], r"/[^\n]*"):
        c.check("the child application is called once", len(child.seen) == 1)
        snap = child.seen[0][1]
        c.check("its root path is the prefix", snap["root_path"] == prefix, snap)
        c.check("the path is kept", snap["path"] == rest and snap["path_params"] == {} and snap["app_root_path"] == "")
    else:
        c.check("other paths are not accepted", child.seen == [] and send.sent[0]["status"] == 404, rest)


def nested(c):
    """mounts in mounts, with routes inside: what the innermost route sees"""
    c.bound("two levels, listed prefixes (deeper nesting follows from the contract of one mount, applied at each level)")
    p1 = c.choose("outer prefix", [["/a"], ["/", ("x", "int")], []])
    p2 = c.choose("inner prefix", [["/b"], ["/", ("y", "str")], ["/a"]])
    root = roots(c)
    pieces = p1 + p2 + ["/", ("rest", "path")]
    rest = c.str("path", re=r"(/[^\n]*)?", ex=lambda r: examples(pieces)(r).replace("\n", ""))      # no mount prefix matches a path with a newline
    scope = base(c, "http", ("" if root is None else root) + rest, root)
    got = []

    async def endpoint(request):
        got.append((request.path_params, request.scope["root_path"], request.scope["app_root_path"], request.scope["path"]))
        return NoResponse()
    app = Mount(template(p1), routes=[Mount(template(p2), app=Router([Route("/{rest:path}", endpoint)]))])
    if c.bool("in a router"):
        app = Router([app], redirect_slashes=False)
    send = Recorder()
    c.run(app(scope, no_receive, send))
    if not c.matches(rest, language(pieces)):
        c.check("other paths do not reach the innermost route", got == [], rest)
        return
    c.check("the innermost route is reached once", len(got) == 1, rest)
    params, croot, top, path = got[0]
    t = texts(pieces, rest)
    want = {p[0]: CONVERT[p[1]](t[p[0]]) for p in pieces if isinstance(p, tuple)}
    c.check("it sees all parameters", params == want, (params, want))
    r = "" if root is None else root
    c.check("the root path grows with every mount", croot == r + rest[:len(rest) - len(t["rest"]) - 1], croot)
    c.check("the top-level root path stays", top == r, top)
    c.check("the request path is unchanged", path == r + rest)


class NoResponse:
    async def __call__(self, scope, receive, send):
        pass


HOSTS = [["example.org"], [("sub", "str"), ".example.org"], [("n", "int"), ".h"], ["a-b.c"], ["x", ("n", "int"), ".", ("d", "str")]]


def host(c):
    """host routes: the Host header without its port"""
    c.bound("the listed host templates")
    pieces = c.choose("template", HOSTS)
    text = template(pieces) + (":8000" if not isinstance(pieces[-1], tuple) and c.bool("port in the template") else "")
    present = c.bool("Host header")
    name = c.str("name", re="[^:]*", alpha=LATIN1, ex=lambda r: examples(pieces)(r).replace(":", "")) if present else ""
    port = c.str("port", re="(:.*)?", alpha=LATIN1, ex=["", ":80", ":8000", ":", ":1:2"]) if present else ""
    scope = base(c, c.choose("type", ["http", "websocket"]), c.str("path"), c.opt("root", lambda c, n: c.str(n)))
    scope["headers"] = [(b"x-forwarded-host", b"example.org")] + ([(b"host", (name + port).encode("latin-1"))] if present else [])
    outer = c.choose("outer parameters", [{}, {"outer": 1, "sub": 2}])
    if outer:
        scope["path_params"] = outer
    given = dict(scope)
    child, send = Child(), Recorder()
    c.run(Host(text, child)(scope, no_receive, send))
    if not c.matches(name, language(pieces)):
        c.check("any other host is not accepted", child.seen == [] and len(send.sent) > 0, name)
        return
    c.check("a matching host is accepted, whatever its port", len(child.seen) == 1 and send.sent == [], (name, port))
    s, snap, receive, snd = child.seen[0]
    want = dict(outer)
    if isinstance(pieces[0], tuple):
        want[pieces[0][0]] = CONVERT[pieces[0][1]](name[:len(name) - len(pieces[1])])
    elif len(pieces) > 1:
        n, _, d = name[1:].partition(".")
        want["n"], want["d"] = int(n), d
    c.check("parameters " + text, snap["path_params"] == want, (snap["path_params"], want))
    same = [k for k in given if k != "path_params"]
    c.check("path, root path and the rest of the scope are kept", c.all([snap[k] == given[k] for k in same]) and ("root_path" in snap) == ("root_path" in given), snap)


def siblings(c):
    """a route that matched only in part leaves no parameters behind"""
    c.bound("one mount with two routes")
    mounted = c.bool("mounted")
    pieces = (["/", ("a", "str")] if mounted else []) + ["/", ("c", "int")]
    path = c.str("path", re="(/[^/\n]+)/[0-9]+" if mounted else "/[0-9]+", ex=examples(pieces))
    got = []

    async def endpoint(request):
        got.append(request.path_params)
        return NoResponse()
    inner = [Route("/{b}", endpoint, methods=["POST"]), Route("/{c:int}", endpoint)]
    app = Mount("/{a}", routes=inner) if mounted else Router(inner)
    scope = base(c, "http", path, None)
    if c.bool("outer parameters"):
        scope["path_params"] = {"outer": 1}
    given = dict(scope)
    c.run(app(scope, no_receive, Recorder()))
    t = texts(pieces, path)
    want = {p[0]: CONVERT[p[1]](t[p[0]]) for p in pieces if isinstance(p, tuple)}
    if "path_params" in given:
        want["outer"] = 1
    c.check("the route that handles the request sees the enclosing parameters and its own", got == [want], (got, want))


def outside(c):
    """a path that is not below the root path is routed on as it is"""
    root = c.str("root path", re="(/[a-z0-9.]+)+", alpha=ASCII, ex=["/sub", "/a", "/a/1"])
    which = c.choose("path", ["beside", "elsewhere", "equal", "below"])
    if which == "beside":
        path = root + c.str("tail", re=r"[^/\n][^\n]*", ex=["x", "x/y", "-"])
    elif which == "elsewhere":
        path = c.str("other path", re=r"/[^\n]*", ex=["/", "/x", "/A"])
        c.assume(not path.startswith(root))
    elif which == "below":
        path = root + c.str("rest", re=r"/[^\n]*", ex=["/", "/x"])
    else:
        path = root
    got = []

    async def endpoint(request):
        got.append(request.path_params)
        return NoResponse()
    scope = base(c, "http", path, root)
    c.run(Router([Route("/{rest:path}", endpoint)], redirect_slashes=False)(scope, no_receive, Recorder()))
    if which == "equal":
        c.check("nothing remains of it", got == [])
    else:
        want = path[len(root) + 1:] if which == "below" else path[1:]
        c.check("the route sees the path, without the root path where it is below it", got == [{"rest": want}], (got, path))


HARNESSES = [mount, literal_mount, nested, host, siblings, outside]
