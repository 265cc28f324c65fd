PRE = '''import asyncio, sys, os
sys.path.insert(0, os.getcwd())
import starlette; assert starlette.__file__.startswith(os.getcwd()), starlette.__file__
def run(app, scope, messages=()):
    sent = []; it = iter(messages)
    async def receive(): return next(it)
    async def send(m): sent.append(m)
    asyncio.run(app(scope, receive, send))
    return sent
def http(path="/", headers=(), method="GET", query=b"", **kw):
    return {"type": "http", "method": method, "path": path, "root_path": "", "query_string": query, "headers": list(headers), "scheme": "http", "server": ("srv", 80), "http_version": "1.1", **kw}
'''
BUGS = [
dict(id="c18-suffix", property="C18",
 edits=[("starlette/middleware/trustedhost.py", '(pattern.startswith("*") and host.endswith(pattern[1:]))', '(pattern.startswith("*") and host.endswith(pattern[2:]))')],
 demo=PRE + '''
from starlette.middleware.trustedhost import TrustedHostMiddleware
called = []
async def app(scope, receive, send): called.append(1)
m = TrustedHostMiddleware(app, allowed_hosts=["*.example.com"])
run(m, http(headers=[(b"host", b"evilexample.com")]))
assert not called
''', needs="a Host that ends with the wildcard's domain without the separating dot", breaks="a foreign host reaches the application"),
dict(id="c05-mro", property="C05",
 edits=[("starlette/_exception_handler.py", "    for cls in type(exc).__mro__:\n        if cls in exc_handlers:\n            return exc_handlers[cls]\n", "    for cls, exc_handler in exc_handlers.items():\n        if cls is type(exc):\n            return exc_handler\n    for cls, exc_handler in exc_handlers.items():\n        if isinstance(exc, cls):\n            return exc_handler\n")],
 demo=PRE + '''
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.responses import PlainTextResponse
class A(Exception): pass
class B(A): pass
class D(B): pass
async def app(scope, receive, send): raise D()
async def ha(r, e): return PlainTextResponse("A")
async def hb(r, e): return PlainTextResponse("B")
m = ExceptionMiddleware(app, handlers={A: ha, B: hb})
assert run(m, http())[1]["body"] == b"B"
''', needs="two handlers for two ancestors of the raised class, the less specific registered first", breaks="the less specific handler answers"),
dict(id="c06-started", property="C06",
 edits=[("starlette/middleware/errors.py", '''            if message["type"] == "http.response.start":
                response_started = True
            await send(message)
''', '''            await send(message)
            if message["type"] == "http.response.start":
                response_started = True
''')],
 demo=PRE + '''
from starlette.middleware.errors import ServerErrorMiddleware
async def app(scope, receive, send):
    await send({"type": "http.response.start", "status": 200, "headers": []})
sent = []
async def send(m):
    sent.append(m)
    if len(sent) == 1: raise OSError("connection lost while sending the start")
try:
    asyncio.run(ServerErrorMiddleware(app)(http(), None, send))
    assert 0
except OSError: pass
assert len(sent) == 1, sent
''', needs="the server's send raising while the start message is being sent", breaks="a second response start is sent after the first one"),
dict(id="c26-copy", property="C26",
 edits=[("starlette/background.py", "self.tasks = list(tasks) if tasks else []", "self.tasks = tasks if isinstance(tasks, list) else list(tasks or ())")],
 demo=PRE + '''
from starlette.background import BackgroundTask, BackgroundTasks
out = []
src = [BackgroundTask(out.append, 1)]
b = BackgroundTasks(src)
b.add_task(out.append, 2)
assert len(src) == 1
''', needs="a source list reused after constructing the task list from it", breaks="later additions leak into the caller's list"),
dict(id="c24-500", property="C24",
 edits=[("starlette/applications.py", "if key in (500, Exception):", "if key in (500, Exception) and error_handler is None:")],
 demo=PRE + '''
from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.responses import PlainTextResponse
from starlette.routing import Route
async def h1(r, e): return PlainTextResponse("one", 500)
async def h2(r, e): return PlainTextResponse("two", 500)
def boom(request): raise ValueError()
app = Starlette(routes=[Route("/", boom)], exception_handlers={500: h1, Exception: h2})
try:
    sent = []
    async def send(m): sent.append(m)
    asyncio.run(app(http(), None, send))
    raised = False
except ValueError: raised = True
assert raised and sent[1]["body"] == b"two", sent
''', needs="handlers registered for both 500 and Exception", breaks="the second of them lands in the exception layer and the error is swallowed there"),
]
