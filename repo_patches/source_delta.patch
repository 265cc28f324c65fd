From ef142e4fdf9533a5ee79d537319ec413b04592cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 01/16] fix: HTTPSRedirectMiddleware keeps the brackets of an
 IPv6 host when it drops the port

---
 starlette/middleware/httpsredirect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index a835906..488ba45 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -11,7 +11,10 @@ class HTTPSRedirectMiddleware:
         if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
-            netloc = url.hostname if url.port in (80, 443) else url.netloc
+            netloc = url.netloc
+            if url.port in (80, 443):
+                # An IPv6 host keeps its brackets when the port is dropped.
+                netloc = netloc.rpartition("@")[2].rpartition(":")[0]
             url = url.replace(scheme=redirect_scheme, netloc=netloc)
             response = RedirectResponse(url, status_code=307)
             await response(scope, receive, send)
-- 
2.43.0


From af42b78f89fd83ead1d97f00b26adeb68f954d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 02/16] fix: SessionMiddleware accepts a response start without
 headers

---
 starlette/middleware/sessions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..11f9ffe 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                message.setdefault("headers", [])
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From c7dd9ba203d59e5f6b1435a57ad8a06b7252bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 03/16] fix: a route template matches the whole path, including
 a trailing newline

---
 starlette/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..73ed6a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -166,9 +166,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From 12ab38b6f34234d7a2e497ca0964b37263f1e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 04/16] fix: reverse URL lookup substitutes each path parameter
 once

---
 starlette/routing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 73ed6a1..9673da3 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,13 +106,15 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
-    for key, value in list(path_params.items()):
-        if "{" + key + "}" in path:
-            convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
-            path_params.pop(key)
-    return path, path_params
+    # Substitute in a single pass, so that text coming from a value is never taken for a parameter.
+    result = ""
+    idx = 0
+    for match in PARAM_REGEX.finditer(path):
+        key = match.group(1)
+        if key in path_params:
+            result += path[idx : match.start()] + param_convertors[key].to_string(path_params.pop(key))
+            idx = match.end()
+    return result + path[idx:], path_params
 
 
 # Match parameters in URL paths, eg. '{param}', and '{param:int}'
-- 
2.43.0


From 8f36631e2863e07169b86d4c052a97acb2abb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 05/16] fix: GZipMiddleware accepts a response start without
 headers and body messages without a body

---
 starlette/middleware/gzip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..d218c32 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -51,7 +51,7 @@ class IdentityResponder:
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
             self.initial_message = message
-            headers = Headers(raw=self.initial_message["headers"])
+            headers = Headers(raw=self.initial_message.setdefault("headers", []))
             self.content_encoding_set = "content-encoding" in headers
             self.content_type_is_excluded = headers.get("content-type", "").startswith(DEFAULT_EXCLUDED_CONTENT_TYPES)
         elif message_type == "http.response.body" and (self.content_encoding_set or self.content_type_is_excluded):
@@ -73,7 +73,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
                     message["body"] = body
@@ -86,7 +86,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
                     message["body"] = body
-- 
2.43.0


From e43e5f926c919e88b8d5ff23c3d6180bd42f1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 06/16] fix: MultiPartParser closes its temporary files on
 every failure

---
 starlette/formparsers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..4d50cda 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -265,11 +265,11 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
+            parser.finalize()
+        except BaseException:
             # Close all the files if there was an error.
             for file in self._files_to_close_on_error:
                 file.close()
-            raise exc
+            raise
 
-        parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From ee0409694447cf04adee79ec32f653bb2dc982e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 07/16] fix: a byte range whose last position is before its
 first is malformed

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..27ccc02 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,7 +471,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From a17fbf025162b37675155daf222b16f2979ef6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 08/16] fix: a Range header with a number too long to read is
 malformed, not a server error

---
 starlette/responses.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 27ccc02..e9e2f0d 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -456,14 +456,18 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else file_size - int(_[1]),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        try:
+            ranges = [
+                (
+                    int(_[0]) if _[0] else file_size - int(_[1]),
+                    int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
+                )
+                for _ in _RANGE_PATTERN.findall(range_)
+                if _ != ("", "")
+            ]
+        except ValueError:
+            # More digits than an integer is read from.
+            raise MalformedRangeHeader()
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From f9dcc58e1849a2dac8b952adbe7f96f78a411ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 09/16] fix: static files in html mode answer permission
 failures of the index page with 401

---
 starlette/staticfiles.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..7481251 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -113,16 +113,7 @@ class StaticFiles:
         if scope["method"] not in ("GET", "HEAD"):
             raise HTTPException(status_code=405)
 
-        try:
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, path)
-        except PermissionError:
-            raise HTTPException(status_code=401)
-        except OSError as exc:
-            # Filename is too long, so it can't be a valid static file.
-            if exc.errno == errno.ENAMETOOLONG:
-                raise HTTPException(status_code=404)
-
-            raise exc
+        full_path, stat_result = await self._lookup_path(path)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
@@ -132,7 +123,7 @@ class StaticFiles:
             # We're in HTML mode, and have got a directory URL.
             # Check if we have 'index.html' file to serve.
             index_path = os.path.join(path, "index.html")
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, index_path)
+            full_path, stat_result = await self._lookup_path(index_path)
             if stat_result is not None and stat.S_ISREG(stat_result.st_mode):
                 if not scope["path"].endswith("/"):
                     # Directory URLs should redirect to always end in "/".
@@ -143,11 +134,23 @@ class StaticFiles:
 
         if self.html:
             # Check for '404.html' if we're in HTML mode.
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, "404.html")
+            full_path, stat_result = await self._lookup_path("404.html")
             if stat_result and stat.S_ISREG(stat_result.st_mode):
                 return FileResponse(full_path, stat_result=stat_result, status_code=404)
         raise HTTPException(status_code=404)
 
+    async def _lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
+        try:
+            return await anyio.to_thread.run_sync(self.lookup_path, path)
+        except PermissionError:
+            raise HTTPException(status_code=401)
+        except OSError as exc:
+            # Filename is too long, so it can't be a valid static file.
+            if exc.errno == errno.ENAMETOOLONG:
+                raise HTTPException(status_code=404)
+
+            raise exc
+
     def lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
         for directory in self.all_directories:
             joined_path = os.path.join(directory, path)
-- 
2.43.0


From 49400ba3138a63db428a24ad7dd94a408b8b01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 10/16] fix: a null byte in a static file path is answered with
 404

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 7481251..b348399 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -150,6 +150,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # Null byte in the path, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
 
     def lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
         for directory in self.all_directories:
-- 
2.43.0


From 2fd4caaa02ef1b01a14e2dd2ae9670848e98d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 11/16] fix: the test client passes the request path on decoded
 once

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From d138b6a0b7ab73354ebf436580cdb16e938a9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 12/16] fix: the test client passes request header values on as
 they are sent

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..4d64a2d 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -231,7 +231,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", (f"{host}:{port}").encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
-- 
2.43.0


From eadcdf05dbd5d8b8b616de5ef1b160699ab598dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 13/16] fix: the test client takes response headers that are
 not UTF-8

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 4d64a2d..051f712 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -315,7 +315,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = [(key, value) for key, value in message.get("headers", [])]
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From 29b2dc8a22ccf1b3ed7088d112905dd5363c6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 14/16] fix: the test client requests IPv6 hosts

---
 starlette/testclient.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 051f712..8b023ed 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -215,20 +215,14 @@ class _TestClientTransport(httpx.BaseTransport):
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = default_port if request.url.port is None else request.url.port
 
         # Include the 'host' header.
         if "host" in request.headers:
             headers: list[tuple[bytes, bytes]] = []
-        elif port == default_port:  # pragma: no cover
-            headers = [(b"host", host.encode())]
         else:  # pragma: no cover
-            headers = [(b"host", (f"{host}:{port}").encode())]
+            headers = [(b"host", netloc.encode())]
 
         # Include other request headers.
         headers += [(key.lower(), value) for key, value in request.headers.raw]
-- 
2.43.0


From d219336611b92a6583750a7826d563d1c9846e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 15/16] fix: the test client keeps the body of a response that
 was not finished

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 8b023ed..b4121c4 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -342,7 +342,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "stream": io.BytesIO(),
             }
 
-        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].read())
+        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].getvalue())
 
         response = httpx.Response(**raw_kwargs, request=request)
         if template is not None:
-- 
2.43.0


From 2f09e22ed02a1035b27d36fac9ddc32d6243fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:55 +0000
Subject: [PATCH 16/16] fix: schema generation added its paths to the base
 schema it was given

---
 starlette/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..3d4c5c9 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -130,7 +130,7 @@ class SchemaGenerator(BaseSchemaGenerator):
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
         schema = dict(self.base_schema)
-        schema.setdefault("paths", {})
+        schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}
         endpoints_info = self.get_endpoints(routes)
 
         for endpoint in endpoints_info:
-- 
2.43.0

