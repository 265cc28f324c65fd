import os
ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(f)), "b1.py")).read(), ns)
PRE = ns["PRE"]
R, M = "starlette/routing.py", "starlette/middleware/"
BUGS = [
dict(id="c01-last405", property="C01", edits=[(R, "elif match == Match.PARTIAL and partial is None:", "elif match == Match.PARTIAL:")],
 demo=PRE + '''
from starlette.routing import Router, Route
from starlette.responses import PlainTextResponse
async def ep(r): return PlainTextResponse("x")
m = Router([Route("/a", ep, methods=["POST"]), Route("/{x}", ep, methods=["PUT"])])
s = run(m, http("/a", method="DELETE"))
assert dict(s[0]["headers"])[b"allow"] == b"POST", s
''', needs="two routes that match the path but not the method", breaks="the last instead of the first partially matching route answers"),
dict(id="c02-literal", property="C02", edits=[(R, "path_regex += re.escape(path[idx : match.start()])", "path_regex += path[idx : match.start()]")],
 demo=PRE + '''
from starlette.routing import compile_path
r, f, c = compile_path("/v1.0/{name}")
assert r.match("/v1.0/x") and not r.match("/v1x0/x")
''', needs="a template with a regular-expression character before a parameter", breaks="a path matches that is not an instance of the template"),
dict(id="c03-emptypath", property="C03", edits=[(R, '            if path_kwarg is not None:\n                remaining_params["path"] = path_kwarg\n            for route in self.routes', '            if path_kwarg:\n                remaining_params["path"] = path_kwarg\n            for route in self.routes')],
 demo=PRE + '''
from starlette.routing import Router, Route, Mount
async def ep(r): pass
m = Router([Mount("/m", routes=[Route("/{path:path}", ep, name="files")])])
assert m.url_path_for("files", path="") == "/m/"
''', needs="a route below a mount, with a parameter called path given as the empty text", breaks="reverse lookup fails"),
dict(id="c04-repeat", property="C04", edits=[(R, '                matched_path = route_path[: -len(remaining_path)]\n                path_params = dict(scope.get("path_params", {}))\n                path_params.update(matched_params)\n                child_scope = {\n                    "path_params": path_params,\n                    # app_root', '                matched_path = route_path[: route_path.index(remaining_path)]\n                path_params = dict(scope.get("path_params", {}))\n                path_params.update(matched_params)\n                child_scope = {\n                    "path_params": path_params,\n                    # app_root')],
 demo=PRE + '''
from starlette.routing import Router, Mount
seen = []
async def app(scope, receive, send): seen.append(scope["root_path"])
run(Router([Mount("/{tenant}/x", app)]), http("/users/x/users"))
run(Router([Mount("/a", app)]), http("/a/a"))
assert seen == ["/users/x", "/a"], seen
''', needs="a path whose rest below the mount also occurs in the matched part", breaks="root_path loses the mount's part of the path"),
dict(id="c07-304", property="C07", edits=[("starlette/responses.py", "and not (self.status_code < 200 or self.status_code in (204, 304))", "and not (self.status_code < 200 or self.status_code == 204)")],
 demo=PRE + '''
from starlette.responses import Response
assert b"content-length" not in dict(Response(status_code=304).raw_headers)
''', needs="a 304 response", breaks="a Content-Length of 0 is announced for a 304"),
dict(id="c09-weaketag", property="C09", edits=[("starlette/responses.py", 'or http_if_range == self.headers["etag"]', 'or http_if_range.endswith(self.headers["etag"])')],
 demo=PRE + '''
import tempfile, os
from starlette.responses import FileResponse
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f"); open(p, "wb").write(b"0123456789")
    r = FileResponse(p, stat_result=os.stat(p))
    s = run(r, http(headers=[(b"range", b"bytes=0-1"), (b"if-range", ("W/" + r.headers["etag"]).encode())]))
    assert s[0]["status"] == 200, s
''', needs="If-Range with the weak form of the entity tag", breaks="a range is sent for a weak validator"),
dict(id="c09-chunkend", property="C09", edits=[("starlette/responses.py", "more_body = len(chunk) == self.chunk_size and start < end", "more_body = len(chunk) == min(self.chunk_size, end - start) and start < end")],
 demo=PRE + '''
import tempfile, os
from starlette.responses import FileResponse
class F(FileResponse): chunk_size = 4
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f"); open(p, "wb").write(b"0123456789" * 3)
    s = run(F(p, stat_result=os.stat(p)), http(headers=[(b"range", b"bytes=0-9")]))
    assert b"".join(m["body"] for m in s[1:]) == b"0123456789", s
''', needs="a range longer than one chunk, whose rest after the first chunk differs from the chunk size", breaks="the range is cut off after the first chunks"),
dict(id="c10-second", property="C10", edits=[("starlette/staticfiles.py", "                # Don't allow misbehaving clients to break out of the static files directory.\n                continue", "                # Don't allow misbehaving clients to break out of the static files directory.\n                break")],
 demo=PRE + '''
import tempfile, os
from starlette.staticfiles import StaticFiles
with tempfile.TemporaryDirectory() as d:
    for n in "ab": os.mkdir(os.path.join(d, n))
    open(os.path.join(d, "b", "f"), "w").write("F"); open(os.path.join(d, "o"), "w").write("O")
    os.symlink("../o", os.path.join(d, "a", "f"))
    m = StaticFiles(directory=os.path.join(d, "a")); m.all_directories.append(os.path.join(d, "b"))
    s = run(m, http("/f"))
    assert s[1]["body"] == b"F"
''', needs="two directories, where the first has a link of that name that leads outside", breaks="the second directory's file is not served"),
dict(id="c11-early", property="C11", edits=[("starlette/requests.py", '''                if not message.get("more_body", False):
                    self._stream_consumed = True
                if body:
                    yield body
''', '''                if body:
                    yield body
                if not message.get("more_body", False):
                    self._stream_consumed = True
''')],
 demo=PRE + '''
from starlette.requests import Request
async def main():
    msgs = iter([{"type": "http.request", "body": b"abc"}])
    async def receive():
        try: return next(msgs)
        except StopIteration: raise AssertionError("receive called after the last body message")
    r = Request(http(), receive)
    async for x in r.stream(): break
    try: await r.body()
    except RuntimeError: return
    raise SystemExit(1)
asyncio.run(main())
''', needs="reading the stream only up to the last chunk, then reading again", breaks="the server is asked for another message after the last one"),
dict(id="c12-chunks", property="C12", edits=[("starlette/formparsers.py", "if len(self._current_part.data) + len(message_bytes) > self.max_part_size:", "if max(len(self._current_part.data), len(message_bytes)) > self.max_part_size:")],
 demo=PRE + '''
from starlette.formparsers import MultiPartParser, MultiPartException
from starlette.datastructures import Headers
async def body():
    yield b'--b\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\n'
    yield b"x" * 70
    yield b"x" * 70
    yield b"\\r\\n--b--\\r\\n"
try:
    asyncio.run(MultiPartParser(Headers({"content-type": "multipart/form-data; boundary=b"}), body(), max_part_size=100).parse())
except MultiPartException: sys.exit(0)
sys.exit(1)
''', needs="a field that is received in two chunks, each below the limit", breaks="a field larger than the limit is accepted"),
dict(id="c13-oserror", property="C13", edits=[("starlette/websockets.py", '''            except OSError:
                self.application_state = WebSocketState.DISCONNECTED
                raise''', '''            except OSError:
                self.client_state = WebSocketState.DISCONNECTED
                raise''')],
 demo=PRE + '''
from starlette.websockets import WebSocket, WebSocketDisconnect
async def main():
    n = 0
    async def receive(): return {"type": "websocket.connect"}
    async def send(m):
        nonlocal n
        n += 1
        if n > 1: raise OSError()
    ws = WebSocket({"type": "websocket"}, receive, send)
    await ws.accept()
    try: await ws.send_text("x")
    except WebSocketDisconnect: pass
    try: await ws.send_text("y")
    except RuntimeError: return
    raise SystemExit(1)
try: asyncio.run(main())
except WebSocketDisconnect: sys.exit(1)
''', needs="two sends after the server's send failed with OSError", breaks="messages are still sent after the connection is gone"),
dict(id="c14-code0", property="C14", edits=[("starlette/endpoints.py", "        except Exception as exc:\n            close_code = status.WS_1011_INTERNAL_ERROR\n            raise exc", "        except RuntimeError as exc:\n            close_code = status.WS_1011_INTERNAL_ERROR\n            raise exc")],
 demo=PRE + '''
from starlette.endpoints import WebSocketEndpoint
codes = []
class E(WebSocketEndpoint):
    encoding = "text"
    async def on_receive(self, ws, data): raise LookupError()
    async def on_disconnect(self, ws, code): codes.append(code)
async def main():
    it = iter([{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "x"}])
    async def receive(): return next(it)
    async def send(m): pass
    try: await E({"type": "websocket"}, receive, send)
    except LookupError: pass
asyncio.run(main())
assert codes == [1011], codes
''', needs="on_receive raising an exception that is no RuntimeError", breaks="on_disconnect gets 1000 instead of 1011"),
dict(id="c15-leak", property="C15", edits=[(M + "cors.py", "        headers = dict(self.preflight_headers)\n", "        headers = self.preflight_headers\n")],
 demo=PRE + '''
from starlette.middleware.cors import CORSMiddleware
m = CORSMiddleware(None, allow_origins=["https://good"])
pre = lambda o: dict(run(m, http(method="OPTIONS", headers=[(b"origin", o), (b"access-control-request-method", b"GET")]))[0]["headers"])
assert pre(b"https://good")[b"access-control-allow-origin"] == b"https://good"
assert b"access-control-allow-origin" not in pre(b"https://evil")
''', needs="a preflight of an allowed origin, then one of another origin", breaks="the allowed origin of an earlier request is sent to a disallowed one"),
dict(id="c16-exact", property="C16", edits=[(M + "gzip.py", "if len(body) < self.minimum_size and not more_body:", "if len(body) <= self.minimum_size and not more_body:")],
 demo=PRE + '''
from starlette.middleware.gzip import GZipMiddleware
async def app(scope, receive, send):
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": b"x" * 500})
s = run(GZipMiddleware(app), http(headers=[(b"accept-encoding", b"gzip")]))
assert dict(s[0]["headers"])[b"content-encoding"] == b"gzip"
''', needs="a body of exactly the minimum size", breaks="it is not compressed"),
dict(id="c17-replaced", property="C17", edits=[(M + "sessions.py", "        async def send_wrapper(message: Message) -> None:\n", "        session = scope[\"session\"]\n\n        async def send_wrapper(message: Message) -> None:\n"),
   (M + "sessions.py", "                if scope[\"session\"]:\n", "                if session:\n"), (M + "sessions.py", "b64encode(json.dumps(scope[\"session\"])", "b64encode(json.dumps(session)")],
 demo=PRE + '''
from starlette.middleware.sessions import SessionMiddleware
async def app(scope, receive, send):
    scope["session"] = {"user": 1}
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body"})
s = run(SessionMiddleware(app, "k"), http())
assert b"set-cookie" in dict(s[0]["headers"]), s
''', needs="an application that replaces the session object", breaks="its session is not stored"),
dict(id="c20-sync", property="C20", edits=[("starlette/authentication.py", '''                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=status_code)
                return func(*args, **kwargs)
''', '''                        return RedirectResponse(url=next_url, status_code=303)
                    raise HTTPException(status_code=403)
                return func(*args, **kwargs)
''')],
 demo=PRE + '''
from starlette.authentication import requires, AuthCredentials
from starlette.exceptions import HTTPException
from starlette.requests import Request
@requires("a", status_code=404)
def ep(request): return 1
try: ep(Request({"type": "http", "auth": AuthCredentials([])}))
except HTTPException as e: assert e.status_code == 404, e
''', needs="a synchronous endpoint with its own status code", breaks="403 is answered instead"),
dict(id="c21-setdefault", property="C21", edits=[("starlette/datastructures.py", '''        self._list = existing_items + value.multi_items()
        self._dict.update(value)
''', '''        self._list = existing_items + value.multi_items()
        for k, v in value.multi_items():
            self._dict.setdefault(k, v)
            if k not in dict(existing_items):
                self._dict[k] = value.getlist(k)[0] if len(value.getlist(k)) > 2 else v
''')],
 demo=PRE + '''
from starlette.datastructures import MultiDict
d = MultiDict([("a", "0")])
d.update([("a", "1"), ("a", "2"), ("a", "3")])
assert d["a"] == "3", d["a"]
''', needs="an update with three values of one key", breaks="the single-value view differs from the last item"),
dict(id="c22-dups", property="C22", edits=[("starlette/datastructures.py", "        for idx in reversed(found_indexes[1:]):\n", "        for idx in reversed(found_indexes[1:3]):\n")],
 demo=PRE + '''
from starlette.datastructures import MutableHeaders
h = MutableHeaders(raw=[(b"x", b"1")] * 4 + [(b"y", b"2")])
h["x"] = "9"
assert h.raw == [(b"x", b"9"), (b"y", b"2")], h.raw
''', needs="a header that is present four times", breaks="one of its values survives the assignment"),
dict(id="c23-blank", property="C23", edits=[("starlette/datastructures.py", '''            keys = [keys]
        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))''', '''            keys = [keys]
        params = MultiDict(parse_qsl(self.query))''')],
 demo=PRE + '''
from starlette.datastructures import URL
assert str(URL("http://h/?a=&b=1").remove_query_params("b")) == "http://h/?a="
''', needs="a query with a blank value next to the removed one", breaks="the blank parameter is lost"),
dict(id="c25-order", property="C25", edits=[(R, '''                await send({"type": "lifespan.startup.complete"})
                started = True
''', '''                started = True
                await send({"type": "lifespan.startup.complete"})
''')],
 demo=PRE + '''
from starlette.routing import Router
sent = []
async def send(m):
    sent.append(m["type"])
    if m["type"] == "lifespan.startup.complete": raise OSError()
async def receive(): return {"type": "lifespan.startup"}
try: asyncio.run(Router()({"type": "lifespan"}, receive, send))
except OSError: pass
assert sent[-1] == "lifespan.startup.failed", sent
''', needs="a server that fails while the completed startup is reported", breaks="a failed shutdown is reported though startup never completed"),
dict(id="c27-delete", property="C27", edits=[("starlette/config.py", "        self._environ.__setitem__(key, value)\n", "        self._environ.__setitem__(key, value)\n        self._has_been_read.discard(key.upper())\n")],
 demo=PRE + '''
from starlette.config import Environ, EnvironError
e = Environ({"KEY": "1", "key": "0"})
e["KEY"]
e["key"] = "2"
try: e["KEY"] = "3"
except EnvironError: sys.exit(0)
sys.exit(1)
''', needs="two variables that differ in case, one read, the other set", breaks="a variable that was read can be changed"),
dict(id="c28-maxage", property="C28", edits=[("starlette/responses.py", "        if max_age is not None:\n", "        if max_age:\n")],
 demo=PRE + '''
from starlette.responses import Response
r = Response(); r.set_cookie("a", "b", max_age=0)
assert b"Max-Age=0" in r.raw_headers[-1][1], r.raw_headers
''', needs="a cookie with max_age=0 and no expires", breaks="the cookie does not expire"),
dict(id="c29-none", property="C29", edits=[("starlette/endpoints.py", "        is_async = is_async_callable(handler)\n", "        is_async = is_async_callable(getattr(type(self), handler_name, handler))\n")],
 demo=PRE + '''
from starlette.endpoints import HTTPEndpoint
from starlette.responses import Response
class E(HTTPEndpoint):
    def __init__(self, *a):
        super().__init__(*a)
        async def post(request): return Response("p")
        self.post = post
    def post(self, request): return Response("never")
async def main():
    sent = []
    async def send(m): sent.append(m)
    await E(http(method="POST"), None, send)
    assert sent[1]["body"] == b"p"
asyncio.run(main())
''', needs="an asynchronous handler set on the instance over a synchronous one of the class", breaks="the handler is run in a thread and never awaited"),
dict(id="c30-again", property="C30", edits=[(M + "base.py", '''            if self._is_disconnected:
                # the middleware has already seen the disconnect''', '''            if self._is_disconnected and self._stream_consumed:
                # the middleware has already seen the disconnect''')],
 demo=PRE + '''
from starlette.middleware.base import _CachedRequest
from starlette.requests import ClientDisconnect
async def main():
    it = iter([{"type": "http.request", "body": b"x", "more_body": True}, {"type": "http.disconnect"}])
    async def receive():
        try: return next(it)
        except StopIteration: raise AssertionError("waits for a message that never comes")
    r = _CachedRequest(http(), receive)
    r._body = b"cached"
    await r.wrapped_receive()
    try:
        async for x in type(r).__mro__[1].stream(_strip(r)): pass
    except ClientDisconnect: pass
    assert (await r.wrapped_receive())["type"] == "http.disconnect"
def _strip(r):
    del r._body
    return r
asyncio.run(main())
''', needs="a disconnect seen while the stream was read, after the body was handed on", breaks="the application waits for another message after the disconnect"),
dict(id="c33-shared", property="C33", edits=[("starlette/schemas.py", '        schema.setdefault("paths", {})\n', '        schema["paths"] = self.base_schema.setdefault("paths", {})\n')],
 demo=PRE + '''
from starlette.schemas import SchemaGenerator
from starlette.routing import Route
def ep(r):
    """
    a: 1
    """
g = SchemaGenerator({"openapi": "3"})
g.get_schema([Route("/a", ep)])
assert g.get_schema([])["paths"] == {}
''', needs="the schema of two lists of routes, one after the other", breaks="paths of the first appear in the second"),
dict(id="c34-dup", property="C34", edits=[(M + "wsgi.py", '            value = environ[corrected_name] + "," + value\n', '            if value not in environ[corrected_name].split(","):\n                value = environ[corrected_name] + "," + value\n            else:\n                value = environ[corrected_name]\n')],
 demo=PRE + '''
from starlette.middleware.wsgi import build_environ
e = build_environ(http(headers=[(b"x", b"1"), (b"x", b"1")]), b"")
assert e["HTTP_X"] == "1,1", e["HTTP_X"]
''', needs="the same header value twice", breaks="a repeated header value is lost"),
dict(id="c32-late", property="C32", edits=[("starlette/testclient.py", '''                assert not response_complete.is_set(), 'Received "http.response.body" after response completed.'
''', '''                if response_complete.is_set() and message.get("more_body", False):
                    raise AssertionError('Received "http.response.body" after response completed.')
''')],
 demo=PRE + '''
from starlette.testclient import TestClient
async def app(scope, receive, send):
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": b"a"})
    await send({"type": "http.response.body", "body": b"b"})
try: TestClient(app).get("/")
except AssertionError: sys.exit(0)
sys.exit(1)
''', needs="an application that sends a second final body message", breaks="the violation is not reported"),
dict(id="c08-late", property="C08", edits=[("starlette/responses.py", '''            except OSError:
                raise ClientDisconnect()
''', '''            except ConnectionError:
                raise ClientDisconnect()
''')],
 demo=PRE + '''
from starlette.responses import StreamingResponse
from starlette.requests import ClientDisconnect
async def send(m): raise OSError("closed")
async def it(): yield b"x"
try: asyncio.run(StreamingResponse(it())({**http(), "asgi": {"spec_version": "2.4"}}, None, send))
except ClientDisconnect: sys.exit(0)
except OSError: sys.exit(1)
''', needs="a server that signals the disconnect with a plain OSError", breaks="the error is not turned into ClientDisconnect"),
]
