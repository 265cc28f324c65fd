"""C33: endpoint discovery for schemas."""
import copy
import re

from starlette.endpoints import HTTPEndpoint
from starlette.routing import BaseRoute, Host, Mount, Route, WebSocketRoute
from starlette.schemas import EndpointInfo, SchemaGenerator

from contracts.common import *
from contracts.routes import *


def view(request):
    """a function"""


class Views:
    def view(self, request):
        """a method"""


class One(HTTPEndpoint):
    def get(self, request):
        """get"""


class Many(HTTPEndpoint):
    async def options(self, request):
        """options"""

    def post(self, request):
        """post"""

    async def delete(self, request):
        """delete"""

    put = patch = post

    def head(self, request):
        """head"""


class Nothing(HTTPEndpoint):
    pass


class Inherits(One):
    def patch(self, request):
        """patch"""


METHODS = ["get", "post", "put", "patch", "delete", "options"]
BOUND = Views().view
PATHS = [["/"], ["/u/", ("id", "int")], ["/", ("a", "str"), "/x:int/", ("u", "uuid"), "/{c:str", "/", ("z", "path")]]


class Own(BaseRoute):
    """a route of somebody else's making: not an HTTP route"""
    include_in_schema = True
    path = "/own"
    methods = {"GET"}
    endpoint = view


def plain(pieces):
    """the template without its convertor suffixes"""
    return "".join(p if isinstance(p, str) else "{" + p[0] + "}" for p in pieces)


def make_path(c, n, prefix=False):
    k = c.choose(n + ".path", [0, 1, 2])
    t = PATHS[k]
    if prefix and k == 0:
        t = ["/m.n"]
    return t


class Sub:
    def __init__(self, routes):
        self.routes = routes


class Spec:
    """a route together with what it is made of"""

    def __init__(self, route, pieces=(), methods=None, func=None, children=None):
        self.route, self.pieces, self.methods, self.func, self.children = route, pieces, methods, func, children


def leaf(c, n):
    kind = c.choose(n + ".kind", ["function", "method", "class", "websocket", "other"])
    if kind == "websocket":
        return Spec(WebSocketRoute("/ws", view))
    if kind == "other":
        return Spec(Own())
    t = make_path(c, n)
    shown = c.bool(n + ".included")
    if kind == "class":
        cls = c.choose(n + ".class", [One, Many, Nothing, Inherits])
        r = Route(template(t), cls, include_in_schema=shown)
        if not shown:
            return Spec(r)
        ms = [m for m in METHODS if hasattr(cls, m)]
        return Spec(r, t, ms, {m: getattr(cls, m) for m in ms})
    f = view if kind == "function" else BOUND
    ms = c.choose(n + ".methods", [None, ["GET"], ["POST", "Put"], ["HEAD"], ["delete", "HEAD", "X-REPORT", "Get"]])
    r = Route(template(t), f, methods=ms, include_in_schema=shown)
    if not shown:
        return Spec(r)
    low_ms = [m.lower() for m in (ms or ["GET"]) if m != "HEAD"]
    return Spec(r, t, low_ms, {m: f for m in low_ms})


class Lists:
    _ghost_ok = True

    def __init__(self, c):
        self.c, self.made = c, []

    def get(self, name):
        for n, made in self.made:
            if n == name:
                return made
        made = self.c.list("inside " + name, info)
        self.made = self.made + [(name, made)]
        return made


class Inside:
    """stands for the routes inside a mount"""

    def __init__(self, name, lists):
        self.name, self.lists = name, lists

    @property
    def listed(self):
        return self.lists.get(self.name)


class Generator(SchemaGenerator):
    """the call for the routes inside a mount is answered by the contract: the list it yields, whatever it is"""

    def get_endpoints(self, routes):
        if len(routes) == 1 and isinstance(routes[0], Inside):
            return routes[0].listed
        return super().get_endpoints(routes)


def info(c, n):
    return EndpointInfo(c.str(n + ".path", re="[/a-zA-Z0-9{}._-]*", ex=["/", "/x"]), c.str(n + ".method", ex=["get", "post"]), view)


def contribution(spec, inner=None):
    """what a route adds to the list, in the order of the list of children; the methods of one route in any order"""
    if spec.children is not None:
        prefix = plain(spec.pieces)
        return mapped(inner, lambda e: EndpointInfo(prefix + e.path, e.http_method, e.func))
    if spec.methods is None:
        return []
    p = plain(spec.pieces)
    return [EndpointInfo(p, m, spec.func[m]) for m in spec.methods]


def same_up_to_order(c, label, got, want):
    c.check(label, len(got) == len(want), (got, want))
    for w in want:
        c.check(label, c.any([g.path == w.path and g.http_method == w.http_method and g.func == w.func for g in got]), (got, want))
    for g in got:
        c.check(label, c.any([g.path == w.path and g.http_method == w.http_method and g.func == w.func for w in want]), (got, want))


class Listing(Loop):
    """what was listed so far, followed by what the next route adds"""

    def init(self, L):
        names = [n for n in L.mutated if n in L.vars and is_list(L.vars[n])]
        if len(names) != 1:
            self.c.give_up("the loop does not collect into one list")
        self.name = names[0]
        self.c.check("inv: nothing listed yet", len(L.vars[self.name]) == 0)
        self.upto = None

    def gen(self, L, i):
        self.upto = self.c.list("listed so far", info)
        return {self.name: self.upto.copy()}

    def check(self, L, i):
        if self.upto is None or not L.generic:
            return
        for e in L.seg.outs(L.i):
            adds(self.c, self.upto, e.spec, L.vars[self.name])


def adds(c, upto, s, got):
    n = len(upto)
    same_list(c, "what was listed stays", got[:n], upto)
    tail = got[n:]
    if s.children is not None:
        same_list(c, "everything inside the mount once, under its path", tail, contribution(s, s.children[0].listed))
    else:
        same_up_to_order(c, "exactly one entry for every method of an included route", list(tail), contribution(s))


def is_list(v):
    return isinstance(v, list) or type(v).__name__ == "VList"


def any_route(c, n, lists):
    kind = c.choose(n + ".container", ["no", "mount", "host"])
    if kind == "no":
        s = leaf(c, n)
    else:
        t = make_path(c, n, True) if kind == "mount" else []
        inside = [Inside(n, lists)]
        app = Sub(inside)
        s = Spec(Mount(template(t), app=app) if kind == "mount" else Host("h.example", app=app), t, children=inside)
    s.route.spec = s
    return s.route


def listing(c):
    """every route adds its own entries, whatever was listed before and is inside"""
    lists = Lists(c)
    routes = c.list("routes", lambda c, n: any_route(c, n, lists))
    c.loop("starlette.schemas:BaseSchemaGenerator.get_endpoints#0", Listing())
    got = Generator({}).get_endpoints(routes)
    if c.mode == "proof":
        return                                            # the list is what the loop contract says, by induction
    upto = []
    for r in routes:
        n = len(r.spec.children[0].listed) if r.spec.children is not None else len(contribution(r.spec))
        c.check("all entries are there", len(got) >= len(upto) + n, got)
        adds(c, upto, r.spec, got[:len(upto) + n])
        upto = got[:len(upto) + n]
    c.check("and no other", len(got) == len(upto), got)


def tree(c):
    """lists of routes, nested"""
    c.bound("routes of the listed shapes, at most two on a level and two levels")

    def build(n, depth):
        k = c.choose(n + " routes", [0, 1, 2])
        out = []
        for i in range(k):
            m = f"{n}.{i}"
            kind = c.choose(m + " container", ["no", "mount", "host", "mount without routes"]) if depth > 0 else "no"
            if kind == "no":
                out.append(small(m))
            elif kind == "mount without routes":
                out.append(Spec(Mount("/static", app=view)))
            else:
                t = c.choose(m + " prefix", [[], ["/m"], ["/", ("x", "int")]]) if kind == "mount" else []
                inner = build(m, depth - 1)
                routes = [s.route for s in inner]
                r = Mount(template(t), routes=routes) if kind == "mount" else Host("{sub:str}.h", app=Sub(routes))
                out.append(Spec(r, t, children=inner))
        return out

    def small(m):
        k = c.choose(m + " is", ["function", "class", "hidden", "websocket"])
        if k == "function":
            return Spec(Route("/u/{id:int}", view, methods=["POST"]), ["/u/", ("id", "int")], ["post"], {"post": view})
        if k == "class":
            return Spec(Route("/", Inherits), ["/"], ["get", "patch"], {"get": Inherits.get, "patch": Inherits.patch})
        if k == "hidden":
            return Spec(Route("/hidden", view, include_in_schema=False))
        return Spec(WebSocketRoute("/ws", view))

    def want(specs):
        out = []
        for s in specs:
            out += contribution(s, want(s.children) if s.children is not None else None)
        return out
    specs = build("top", 1)
    got = SchemaGenerator({}).get_endpoints([s.route for s in specs])
    w = want(specs)
    same_list(c, "all routes, in order", sorted_runs(got, w), w)


def sorted_runs(got, want):
    """the entries of one path and position may come in any order of methods"""
    out, k = list(got), 0
    for k in range(len(out) - 1):
        if k + 1 < len(want) and want[k].path == want[k + 1].path == out[k].path == out[k + 1].path and out[k].http_method == want[k + 1].http_method and out[k + 1].http_method == want[k].http_method \
                and out[k] != want[k]:
            out[k], out[k + 1] = out[k + 1], out[k]
    return out


class Documented(SchemaGenerator):
    """endpoints and their documentation, given"""

    def __init__(self, base, eps, docs):
        super().__init__(base)
        self.eps, self.docs = eps, docs

    def get_endpoints(self, routes):
        return self.eps

    def parse_docstring(self, func):
        return self.docs[func]


def schema(c):
    """the schema: the base schema's own entries, and every documented endpoint"""
    c.bound("at most 3 endpoints")
    n = c.choose("endpoints", [0, 1, 2, 3])
    funcs = [f"f{i}" for i in range(n)]
    eps = [EndpointInfo(c.str(f"path {i}", ex=["/a", "/b"]), c.choose(f"method {i}", ["get", "post"]), funcs[i]) for i in range(n)]
    docs = {f: (c.choose("documented " + f, [{}, {"responses": f}])) for f in funcs}
    kind = c.choose("base", ["empty", "info", "paths"])
    base = {"empty": {}, "info": {"openapi": "3.0.0", "info": {"title": "t"}}, "paths": {"openapi": "3", "paths": {"/base": {"get": {"x": 1}}}}}[kind]
    own = copy.deepcopy(base)
    for e in eps:
        c.assume(e.path != "/base")
    got = Documented(base, eps, docs).get_schema(["routes"])
    for k in own:
        if k != "paths":
            c.check("the base schema's own entries", got[k] == own[k], (k, got))
    if kind == "paths":
        c.check("its own paths", got["paths"]["/base"] == {"get": {"x": 1}}, got)
    c.check("and nothing but paths is added", set(got.keys()) == set(own) | {"paths"}, got)
    count = 0
    for i, e in enumerate(eps):
        if docs[e.func] == {}:
            continue
        last = [f for f in eps if docs[f.func] != {} and f.path == e.path and f.http_method == e.http_method][-1]
        c.check("every documented endpoint under its path and method", got["paths"][e.path][e.http_method] == docs[last.func], (e, got))
        if last is e:
            count += 1
    total = sum([len(got["paths"][p]) for p in got["paths"]])
    c.check("and no other", total == count + (1 if kind == "paths" else 0), got)


class Two(SchemaGenerator):
    """two lists of routes with one documented endpoint each"""

    def __init__(self, base, lists):
        super().__init__(base)
        self.lists = lists

    def get_endpoints(self, routes):
        return self.lists[routes[0]]

    def parse_docstring(self, f):
        return {"operationId": f}


def again(c):
    """several schemas of one generator: neither contains the other's endpoints, and the base schema stays as it is"""
    base = c.choose("base", [{}, {"openapi": "3"}, {"paths": {}}, {"paths": {"/b": {"get": {"x": 1}}}}, {"paths": {"/a": {"put": {"x": 1}}}}])
    base = copy.deepcopy(base)
    own = copy.deepcopy(base)
    a = EndpointInfo(c.choose("first path", ["/a", "/b"]), c.choose("first method", ["get", "post"]), "f")
    b = EndpointInfo(c.choose("second path", ["/a", "/c"]), c.choose("second method", ["get", "post"]), "g")
    gen = Two(base, {"first": [a], "second": [b], "none": []})
    for k in ("first", "second", "none"):
        got = gen.get_schema([k])
        want = copy.deepcopy(own)
        want.setdefault("paths", {})
        for e in gen.lists[k]:
            want["paths"].setdefault(e.path, {})[e.http_method] = {"operationId": e.func}
        c.check("exactly the endpoints of these routes", got == want, (k, got, want))
        c.check("the base schema stays as it is", base == own, (k, base))


def docstrings(c):
    """documentation: the YAML mapping after the last separator"""
    c.bound("listed docstrings")
    text, want = c.choose("doc", [(None, {}), ("", {}), ("just text", {}), ("a: 1\n", {"a": 1}), ("text\n---\na: {b: 2}\n", {"a": {"b": 2}}), ("a: 1\n---\nx\n---\nb: 3", {"b": 3}),
                                  ("- 1\n- 2", {}), ("text: with\n---\n", {})])

    def f():
        pass
    f.__doc__ = text
    got = SchemaGenerator({}).parse_docstring(f)
    c.check("the mapping", got == want, (got, want))


def suffixes(c):
    """template texts without their convertors"""
    k = c.choose("template", list(range(len(TEMPLATES))))
    t = TEMPLATES[k]
    r = Route(template(t, short=c.bool("short")), view)
    got = SchemaGenerator({}).get_endpoints([r])
    c.check("one entry", len(got) == 1 and got[0].http_method == "get" and got[0].func is view, got)
    c.check("its path is the template without convertor suffixes", got[0].path == plain(t), (got, plain(t)))


HARNESSES = [listing, tree, schema, again, docstrings, suffixes]
