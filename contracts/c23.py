"""C23: URLs from scopes, replaced components, query parameters, absolute URLs, and what repr shows."""
from urllib.parse import parse_qsl

from starlette.datastructures import URL, URLPath
from starlette.requests import HTTPConnection, Request
from starlette.routing import Mount, Route, Router

from contracts.common import *

DEFAULT = {"http": 80, "https": 443, "ws": 80, "wss": 443}
SCHEMES = ["http", "https", "ws", "wss"]
PATHS = "(/" + PATH_TAIL + ")?"
TEXT = "[A-Za-z0-9._~!$&'()*+,;=%-]"        # user name and password
FRAGMENT = "[A-Za-z0-9/?:@._~!$&'()*+,;=-]*"


class Searching(Loop):
    """until a Host header comes, nothing changes"""

    def init(self, L):
        self.before = {v: L.vars[v] for v in L.assigned if v in L.vars}

    def gen(self, L, i):
        L.none(lambda e: e[0] == b"host", i)
        return self.before

    def check(self, L, i):
        self.c.check("inv: no Host header so far", not L.some(lambda e: e[0] == b"host", i))
        self.c.check("inv: nothing found so far", self.c.all([L.vars[v] == self.before[v] for v in self.before]))


def any_headers(c):
    """any number of headers"""
    c.loop("starlette.datastructures:URL.__init__#0", Searching())
    headers = raw_list(c, names=[b"a", b"host", b"x-host"])
    path = c.str("path", re="/" + PATH_TAIL)
    host = first_header(headers, b"host")
    url = URL(scope={"type": "http", "path": path, "scheme": "https", "headers": headers, "server": ("srv", 444)})
    want = "https://" + ("srv:444" if host is None else host) + path
    c.check("the first Host header, or the server address", str(url) == want, (str(url), want))


def from_scope(c):
    """any scope; the first Host header counts"""
    c.bound("up to 3 headers (any number: contract any_headers)")
    scheme = c.choose("scheme", SCHEMES + [None])
    path = c.str("path", ex=["/", "/a b", "/a?b", "\u20ac", ""])
    server = c.choose("server", ["none", "named", "absent"])
    scope = {"type": "http", "path": path}
    if scheme is not None:
        scope["scheme"] = scheme
    host, port = c.str("server host", ex=["h", "127.0.0.1", "::1"]), c.int("server port", 0, 65535, ex=[80, 443, 8000])
    if server == "named":
        scope["server"] = (host, port)
    elif server == "none":
        scope["server"] = None
    query = c.str("query", re=QUERY, ex=["", "a=1", "a=b&c=%20"])
    given = query.encode("ascii")
    if c.bool("query in the scope"):
        scope["query_string"] = given
    else:
        query = ""
    n = c.choose("headers", [0, 1, 2, 3])
    scope["headers"] = [(c.bytes(f"name {i}", ex=[b"host", b"accept", b"x-host", b"Host"]), c.bytes(f"value {i}", ex=[b"example.org:80", b"", b"\xe9"])) for i in range(n)]
    header = None
    for k, v in scope["headers"]:
        if header is None and k == b"host":
            header = v
    s = scheme or "http"
    if header is not None:
        want = s + "://" + header.decode("latin-1") + path
    elif server != "named":
        want = path
    elif port == DEFAULT[s]:
        want = s + "://" + host + path
    else:
        want = s + "://" + host + ":" + str(port) + path
    if query != "":
        want = want + "?" + query
    before = dict(scope)
    url = URL(scope=scope)
    c.check("scheme, host, path and query", str(url) == want, (str(url), want))
    c.check("the scope is not changed", scope == before)
    r = HTTPConnection(scope)
    c.check("a connection's URL is that of its scope", str(r.url) == want)


class Parts:
    """a URL by its components"""

    def __init__(self, scheme, user, password, host, port, path, query, fragment):
        self.scheme, self.user, self.password, self.host, self.port, self.path, self.query, self.fragment = scheme, user, password, host, port, path, query, fragment

    def netloc(self):
        out = self.host
        if self.port is not None:
            out = out + ":" + str(self.port)
        if self.user is not None:
            out = self.user + ("" if self.password is None else ":" + self.password) + "@" + out
        return out

    def text(self):
        out = self.scheme + "://" + self.netloc() + self.path
        if self.query != "":
            out = out + "?" + self.query
        if self.fragment != "":
            out = out + "#" + self.fragment
        return out


def a_host(c, name):
    return c.choose("IPv6 " + name, ["[::1]", "[2001:db8::5]"]) if c.bool(name + " is IPv6") else c.str(name, re="[a-zA-Z0-9]([a-zA-Z0-9.-]*[a-zA-Z0-9])?", ex=["example.org", "A", "10.0.0.1"])


def a_port(c, name):
    return c.int(name, 1, 65535, ex=[80, 443, 8000])


def a_url(c, users=3, rich=True, scheme=None):
    user = password = None
    u = c.choose("credentials", [0, 1, 2][:users])
    if u:
        user = c.str("user", re=TEXT + "+", ex=["u", "u%40x"])
    if u == 2:
        password = c.str("password", re=TEXT + "*", ex=["", "secret", "p%3A"])
    host = a_host(c, "host")
    port = c.opt("port", a_port) if rich else None
    return Parts(scheme or (c.choose("scheme", SCHEMES) if rich else "http"), user, password, host, port, c.str("path", re=PATHS, ex=["", "/", "/a/b"]),
                 c.str("query", re=QUERY, ex=["", "a=1", "a=b@c:d/"]) if rich else "", c.str("fragment", re=FRAGMENT, ex=["", "top"]) if rich else "")


def same(c, label, url, want):
    c.check(label, str(url) == want.text(), (str(url), want.text()))


def components(c):
    """what a URL says about its parts"""
    p = a_url(c)
    u = URL(p.text())
    c.check("scheme", u.scheme == p.scheme)
    c.check("netloc", u.netloc == p.netloc(), u.netloc)
    c.check("path, query, fragment", u.path == p.path and u.query == p.query and u.fragment == p.fragment, (u.path, u.query, u.fragment))
    c.check("user and password", u.username == p.user and u.password == p.password, (u.username, u.password))
    c.check("host, in lower case and without brackets", u.hostname == p.host.strip("[]").lower(), u.hostname)
    c.check("port", u.port == p.port, u.port)
    c.check("secure", u.is_secure == (p.scheme in ("https", "wss")))


def replaced(c):
    """one component, or host and port, replaced"""
    what = c.choose("component", ["scheme", "user", "password", "host", "port", "no port", "host and port", "path", "query", "fragment", "netloc", "nothing"])
    p = a_url(c, scheme=None if what == "scheme" else "https")
    url = URL(p.text())
    if what == "scheme":
        p.scheme = c.choose("new scheme", SCHEMES)
        got = url.replace(scheme=p.scheme)
    elif what == "user":
        p.user = c.str("new user", re=TEXT + "+", ex=["v"])
        got = url.replace(username=p.user)
    elif what == "password":
        c.assume(p.user is not None)
        p.password = c.str("new password", re=TEXT + "*", ex=["", "q"])
        got = url.replace(password=p.password)
    elif what == "host":
        p.host = a_host(c, "new host")
        got = url.replace(hostname=p.host)
    elif what == "port":
        p.port = a_port(c, "new port")
        got = url.replace(port=p.port)
    elif what == "no port":
        p.port = None
        got = url.replace(port=None)
    elif what == "host and port":
        p.host, p.port = a_host(c, "new host"), a_port(c, "new port")
        got = url.replace(hostname=p.host, port=p.port)
    elif what == "path":
        p.path = c.str("new path", re=PATHS, ex=["", "/x"])
        got = url.replace(path=p.path)
    elif what == "query":
        p.query = c.str("new query", re=QUERY, ex=["", "x=y"])
        got = url.replace(query=p.query)
    elif what == "fragment":
        p.fragment = c.str("new fragment", re=FRAGMENT, ex=["", "f"])
        got = url.replace(fragment=p.fragment)
    elif what == "netloc":
        h = p.host = a_host(c, "new host")
        p.user = p.password = p.port = None
        got = url.replace(netloc=h)
    else:
        got = url.replace()
    same(c, "exactly the named components change", got, p)


def from_components(c):
    """a URL given by its components"""
    p = a_url(c, 1)
    q = URL(scheme=p.scheme, netloc=p.netloc(), path=p.path, query=p.query, fragment=p.fragment)
    same(c, "all components are in the URL", q, p)


KEYS = ["a", "b", "aa"]


def queries(c):
    """query parameters added, replaced, removed"""
    c.bound("up to 2 parameters in the URL over three key names (what a query parses to: C21)")
    p = a_url(c, 1, rich=False)
    n = c.choose("number of parameters", [0, 1, 2])
    pairs = [(c.choose(f"key {i}", KEYS), c.str(f"value {i}", re="[A-Za-z0-9]*", ex=["", "1", "x"])) for i in range(n)]
    extra = c.choose("ending", ["", "&a=%20%26", "&%62=1+2"]) if n else ""
    query = "&".join([k + "=" + v for k, v in pairs]) + extra
    pairs = pairs + {"": [], "&a=%20%26": [("a", " &")], "&%62=1+2": [("b", "1 2")]}[extra]
    p.query = query
    p.fragment = c.choose("fragment", ["", "f"])
    url = URL(p.text())
    how = c.choose("operation", ["include", "include two", "replace", "replace with nothing", "remove", "remove two", "remove none"])
    new = c.str("new value", re="[A-Za-z0-9]*", ex=["", "9"]) if how in ("include", "include two", "replace") else ""
    if how == "include":
        got = url.include_query_params(b=new)
        want = {"b": new}
    elif how == "include two":
        got = url.include_query_params(b=new, c=7)
        want = {"b": new, "c": "7"}
    elif how == "replace":
        got = url.replace_query_params(b=new, c=7)
        c.check("only the given parameters are left", parse_qsl(got.query, keep_blank_values=True) == [("b", new), ("c", "7")], got.query)
    elif how == "replace with nothing":
        got = url.replace_query_params()
        c.check("no parameters are left", got.query == "", got.query)
    elif how == "remove":
        got = url.remove_query_params("a")
        want = {"a": None}
    elif how == "remove two":
        got = url.remove_query_params(["a", "zz", "aa"])
        want = {"a": None, "aa": None}
    else:
        got = url.remove_query_params([])
        want = {}
    if "replace" not in how:
        left = parse_qsl(got.query, keep_blank_values=True)
        c.check("parameters of other names are kept, in order", [e for e in left if e[0] not in want] == [e for e in pairs if e[0] not in want], (left, pairs))
        for k, v in want.items():
            c.check("the named parameters have exactly the new value", [e[1] for e in left if e[0] == k] == ([] if v is None else [v]), (k, left))
    p.query = got.query
    same(c, "nothing but the query changes", got, p)


def absolute(c):
    """route paths made absolute"""
    p = a_url(c, 1)
    p.query = p.fragment = ""
    base = p.text()
    path = c.str("route path", re="/" + PATH_TAIL, ex=["/", "/x/y"])
    protocol = c.choose("protocol", ["http", "websocket", ""])
    host = c.choose("route host", ["", c.str("other host", re="[a-z0-9.]+", alpha=ASCII, ex=["h.example.org"])])
    got = URLPath(path, protocol, host).make_absolute_url(URL(base) if c.bool("base is a URL") else base)
    secure = p.scheme in ("https", "wss")
    if protocol == "http":
        scheme = "https" if secure else "http"
    elif protocol == "websocket":
        scheme = "wss" if secure else "ws"
    else:
        scheme = p.scheme
    want = scheme + "://" + (host or p.netloc()) + p.path.rstrip("/") + path
    c.check("scheme from protocol and security, host, base path and route path", str(got) == want, (str(got), want))


def url_for(c):
    """what request.url_for returns, also below mounts"""
    root = c.choose("root path", [None, "", "/app", "/app/"])
    scheme = c.choose("scheme", ["http", "https"])
    hostname = c.str("host", re="[a-z0-9]+", alpha=ASCII, ex=["h"])
    x = c.str("x", re="[a-z0-9]+", alpha=ASCII, ex=["v"])
    got = []

    async def endpoint(request):
        got.append((str(request.url_for("r", x="y")), str(request.base_url), str(request.url)))
        return Nothing()

    app = Router([Mount("/m", routes=[Route("/{x}", endpoint, name="r")])]) if c.bool("mounted") else Router([Route("/m/{x}", endpoint, name="r")])
    below = "" if root is None else root.rstrip("/")
    scope = {"type": "http", "method": "GET", "path": below + "/m/" + x, "scheme": scheme, "query_string": b"q=1", "headers": [(b"host", hostname.encode("ascii"))]}
    if root is not None:
        scope["root_path"] = below
    c.run(app(scope, no_receive, Recorder()))
    c.check("the endpoint is reached", len(got) == 1)
    origin = scheme + "://" + hostname
    c.check("base URL: scheme, host, top-level root path", got[0][1] == origin + below + "/", got)
    c.check("the request's URL", got[0][2] == origin + below + "/m/" + x + "?q=1", got)
    c.check("reverse URL below the base URL", got[0][0] == origin + below + "/m/y", got)


class Nothing:
    async def __call__(self, scope, receive, send):
        pass


def shown(c):
    """repr hides the password"""
    p = a_url(c, 3, scheme="http")
    q = Parts(p.scheme, p.user, p.password, p.host, p.port, p.path, p.query, p.fragment)
    if p.password is not None and p.password != "":
        q.password = "********"
    c.check("repr shows the URL, with the password masked", repr(URL(p.text())) == "URL(" + repr(q.text()) + ")", repr(URL(p.text())))


HARNESSES = [from_scope, any_headers, components, replaced, from_components, queries, absolute, url_for, shown]
