"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
R="starlette/routing.py"
p("C01","A request is handed to exactly one route: the first that matches",
 "For every route table and every HTTP or WebSocket request, the router hands the request exactly once: to the first route in registration order that fully matches, else to the first route that matches the path but not the method, else (HTTP, slash redirection on, path not \"/\") to a redirect to the slash-toggled path if some route matches that path, else to the default handler. The handler sees the caller's scope updated with exactly the chosen route's own child scope. Running a single route stand-alone follows the same rule, with its own 404 or WebSocket close when it does not match.",
 ["inputs","configurations"],"all route tables of any length (any mixture of full/partial/non matches), all scopes, both redirect settings",
 "Tests use a dozen fixed tables; the guarantee is about every order and every length of table and every match outcome of each entry.",
 [R],[("Router.app dispatch loops",R+":Router.app"),("BaseRoute.__call__",R+":BaseRoute.__call__"),("Router.not_found",R+":Router.not_found")],
 ["calls of route.handle / default, messages sent"])
p("C02","A route matches exactly its template, and enforces its methods",
 "A route matches a request exactly when the connection type agrees and the whole path remaining below the mount prefix is an instance of the route's path template under the declared convertors (str, int, float, uuid, path); the endpoint then receives exactly the converted parameter texts merged over those of enclosing mounts. A method outside the route's method set (GET implies HEAD) never reaches the endpoint and yields 405 with an Allow header listing exactly the allowed methods.",
 ["inputs","configurations"],"all paths, all methods, all templates made of literal text and typed parameters",
 "Tests try a few dozen path strings; the statement is about every string, including newlines, dots and empty segments.",
 [R,"starlette/convertors.py","starlette/_utils.py"],[("compile_path",R+":compile_path"),("Route.matches/handle",R+":Route.matches"),("WebSocketRoute.matches",R+":WebSocketRoute.matches"),("convertors","starlette/convertors.py")],
 ["endpoint invocation, scope['path_params'], 405 response"])
p("C03","Reverse URLs lead back to the same route with the same parameters",
 "For every route whose parameters fill whole path segments (str, int, uuid, or a trailing path parameter) and every accepted parameter values, the path produced by reverse lookup by name is matched by that same route and converts back to equal parameter values, each parameter's text being substituted exactly once and verbatim, also through named mounts. A lookup whose name or parameter set differs raises the no-match error and never yields a URL.",
 ["inputs","configurations"],"all parameter values accepted by the convertors, all literal texts, nesting under mounts",
 "Tests reverse a handful of names with tame values; values containing braces, percent signs or separators are not tried.",
 [R,"starlette/convertors.py"],[("replace_params",R+":replace_params"),("url_path_for",R+":Route.url_path_for, Mount.url_path_for, Host.url_path_for, Router.url_path_for"),("to_string","starlette/convertors.py")],
 ["url_path_for result"])
p("C04","Mounts and hosts split the path without losing or inventing any of it",
 "When a mount accepts a request, the child's root path is the parent's root path followed by the matched prefix, the path the child routes on is exactly the rest (starting with \"/\"), and their concatenation is the request path; the top-level root path stays recorded unchanged through any depth of nesting, and enclosing path parameters are kept. A mount at prefix P accepts a path only if what remains after the root path starts with an instance of P followed by \"/\"; a host route matches exactly the Host header with its port removed.",
 ["inputs","configurations"],"all paths, root paths, prefixes, nesting depths (by composition) and Host headers",
 "Tests use fixed prefixes; prefix-but-not-segment cases (/api vs /apiv2, root path equal to path) are sampled once or not at all.",
 [R,"starlette/_utils.py"],[("get_route_path","starlette/_utils.py:get_route_path"),("Mount.matches",R+":Mount.matches"),("Host.matches",R+":Host.matches")],
 ["child scope root_path/app_root_path/path_params"])
p("C05","Exceptions reach the most specific handler, never after the response began",
 "When an application wrapped for exception handling raises, the handler chosen is the one registered for the HTTP exception's status code if any, otherwise the one for the first class in the exception's method resolution order, and its response is sent exactly once; an exception with no handler propagates unchanged. If the response had already started, no handler runs and a RuntimeError caused by the original exception is raised; without handlers or exceptions nothing is altered.",
 ["inputs","configurations","fault_sequences"],"all exceptions, handler tables, sync/async handlers, points of failure relative to response start, HTTP and WebSocket",
 "Tests cover a few exception classes and one failure point each.",
 ["starlette/_exception_handler.py","starlette/middleware/exceptions.py"],[("wrap_app_handling_exceptions","starlette/_exception_handler.py"),("ExceptionMiddleware","starlette/middleware/exceptions.py")],
 ["messages sent, exceptions propagated"])
p("C06","Unhandled errors give one 500 response, leak nothing, and are re-raised",
 "When the application raises an unhandled exception, the outermost error layer sends exactly one error response (the custom handler's, else a fixed 500 text) if and only if the response had not started, and always re-raises the original exception; messages of the application are passed through unchanged. Outside debug mode the response contains nothing derived from the exception or its traceback; in debug mode any HTML page escapes all exception-derived text.",
 ["inputs","fault_sequences","configurations"],"all exceptions and messages, all failure points, debug on/off, custom handler present/absent/sync/async",
 "Tests exercise one exception text at one point.",
 ["starlette/middleware/errors.py"],[("ServerErrorMiddleware.__call__","starlette/middleware/errors.py"),("html escaping","starlette/middleware/errors.py:generate_html, generate_frame_html, format_line")],
 ["messages sent, exception raised"])
p("C07","A response is one start message and one body with truthful headers",
 "For every content, status, header mapping and media type, calling a plain, HTML, text, JSON or redirect response sends exactly one start message followed by exactly one final body message carrying the encoded content; header names are lower-cased, caller-supplied headers are kept in order and never duplicated by defaults, content-length (absent for 1xx, 204 and 304) equals the body length, and text media types state the charset used to encode. Redirect locations contain only URL-safe ASCII. Background work starts only after the final message.",
 ["inputs"],"all contents, statuses, headers, media types",
 "Tests check a few contents and header combinations.",
 ["starlette/responses.py"],[("Response.init_headers/render/__call__","starlette/responses.py:Response"),("JSONResponse.render","starlette/responses.py:JSONResponse"),("RedirectResponse","starlette/responses.py:RedirectResponse")],
 ["messages sent"])
p("C08","Streaming sends every chunk once, in order, and ends exactly once",
 "A streaming response sends one start message, then each chunk produced by the (sync or async) iterator exactly once and in order, text chunks encoded in the response charset, then exactly one final empty body message; nothing is sent after a send fails, and an OS error from the server surfaces as a client-disconnect error. With servers that cannot signal this, streaming stops when the client disconnects. Background work runs only after streaming ended without error.",
 ["inputs","histories","fault_sequences"],"all chunk sequences of any length, all failure points, both server protocol generations",
 "Tests stream fixed short sequences and one disconnect.",
 ["starlette/responses.py","starlette/concurrency.py"],[("StreamingResponse.stream_response/__call__","starlette/responses.py:StreamingResponse"),("iterate_in_threadpool","starlette/concurrency.py")],
 ["messages sent"])
p("C09","File and range responses send exactly the bytes they announce",
 "For every file, Range and If-Range header, a file response is either the whole file (200), the requested byte ranges (206) with Content-Range inside the file, Content-Length equal to the bytes sent and each sent range equal to that slice of the file, or an error (400 malformed, 416 unsatisfiable) with no file data; overlapping or adjacent ranges given in ascending order are merged. Ranges are honoured only without If-Range or when it equals the current ETag or Last-Modified; HEAD sends the same headers and no data.",
 ["inputs"],"all file sizes and contents, all range lists, all chunk sizes >= 1, GET and HEAD",
 "Tests use one 526-byte file and about ten Range headers.",
 ["starlette/responses.py"],[("_parse_range_header","starlette/responses.py:FileResponse._parse_range_header"),("_handle_simple/_handle_single_range/_handle_multiple_ranges","starlette/responses.py:FileResponse"),("generate_multipart","starlette/responses.py:FileResponse.generate_multipart")],
 ["messages sent"])
p("C10","Static files never escape their directories",
 "For every request path, the file served by a static-files app lies inside one of the configured directories after resolving \"..\" and, unless symlink following was enabled, symbolic links; anything else is 404, methods other than GET and HEAD are 405, permission failures when looking the file up are 401 (operating-system errors other than a missing file, a missing permission and a too long name are raised). The first configured directory that has the file wins. A 304 is sent only if the request's If-None-Match lists the current ETag or its If-Modified-Since is not older than the file, and it carries no body.",
 ["inputs","configurations"],"all request paths, directory sets, file-system layouts (as an abstract resolver), conditional headers",
 "Tests try a few traversal strings and one symlink.",
 ["starlette/staticfiles.py"],[("lookup_path","starlette/staticfiles.py:StaticFiles.lookup_path"),("get_path","starlette/staticfiles.py:StaticFiles.get_path"),("get_response","starlette/staticfiles.py:StaticFiles.get_response"),("is_not_modified","starlette/staticfiles.py:StaticFiles.is_not_modified")],
 ["file opened, response status"])
p("C11","The request body is delivered whole, once, and disconnects are reported",
 "Streaming a request yields exactly the non-empty bodies of the server's request messages, in order, followed by one empty chunk; reading the body returns their concatenation, and once read, body, stream and JSON access replay the same bytes without touching the server again. Streaming again after the stream was exhausted raises an error, a disconnect before the end raises the disconnect error, and no server message after the last body part is consumed.",
 ["inputs","histories"],"all message sequences of any length, all interleavings of body/stream/json calls",
 "Tests feed one or two messages.",
 ["starlette/requests.py"],[("Request.stream","starlette/requests.py:Request.stream"),("Request.body","starlette/requests.py:Request.body")],
 ["values returned, receive calls"],[("_stream_consumed","the last body part was seen","starlette/requests.py"),("_body","cached whole body","starlette/requests.py")])
p("C12","Multipart forms: parts map to fields within limits, files cleaned up on error",
 "However the body is split into chunks, each multipart part yields exactly one form item under its own name with exactly its data: text parts as strings, file parts as uploads positioned at the start with their size, filename and headers. A part without a name, more files or fields than allowed, or a text part larger than the limit is rejected; parts at the limits are accepted. When parsing fails for any reason, every temporary file already created is closed.",
 ["inputs","fault_sequences"],"all sequences of parser events and chunkings, all limits, all failure points",
 "Tests send fixed bodies in one chunk; failures other than limit violations are not followed to the temporary files.",
 ["starlette/formparsers.py","starlette/datastructures.py"],[("MultiPartParser callbacks and parse","starlette/formparsers.py:MultiPartParser"),("UploadFile","starlette/datastructures.py:UploadFile")],
 ["FormData items, temp files closed"],[("_current_part/_file_parts_to_write","partial part state between callbacks","starlette/formparsers.py")])
p("C13","WebSocket sessions only ever perform legal protocol steps",
 "For every sequence of sends and receives, a WebSocket forwards a message to the server only if it is legal in the current state (accept, close or denial start first; then data or close; after a denial start only denial bodies until the last), raises an error otherwise without forwarding, and forwards nothing after close or the final denial body. It hands the application only a connect message first and then data or disconnect, and never reads again after a disconnect; a failed send while connected becomes a disconnect with code 1006.",
 ["histories","inputs","fault_sequences"],"all states and all messages, hence all sequences (by induction over the state invariant)",
 "Tests walk about twenty fixed sequences.",
 ["starlette/websockets.py"],[("WebSocket.receive/send","starlette/websockets.py:WebSocket"),("accept/close/send_*/receive_*","starlette/websockets.py:WebSocket")],
 ["messages forwarded, state"],[("client_state/application_state","protocol automaton","starlette/websockets.py")])
p("C14","WebSocket endpoints: connect, every message once, disconnect exactly once",
 "A class-based WebSocket endpoint calls its connect hook first, then its receive hook once per data message in order with the payload decoded per its declared encoding, and its disconnect hook exactly once at the end however the session ends: with the client's close code (1000 if none) on a normal disconnect, with 1011 if handling fails. A payload of the wrong kind or malformed JSON closes the socket with code 1003 and raises.",
 ["inputs","histories","fault_sequences"],"all message sequences of any length, all encodings, failures at any point",
 "Tests send one or two messages per encoding.",
 ["starlette/endpoints.py"],[("WebSocketEndpoint.dispatch/decode","starlette/endpoints.py:WebSocketEndpoint")],
 ["hook calls, close messages"])
p("C15","CORS never authorises what was not configured, and echoes only with Vary",
 "A response carries Access-Control-Allow-Origin from the middleware only for requests with an Origin that the configuration allows (listed, fully matching the regex, or any-origin), as \"*\" or that exact origin, and Vary includes Origin whenever the origin is echoed; credentials are advertised only if configured. A preflight is answered directly: 200 exactly when the origin, requested method and every requested header are allowed, else 400; requests without Origin pass through untouched.",
 ["inputs","configurations"],"all configurations, origins, methods and header lists",
 "Tests cover a few configurations and origins.",
 ["starlette/middleware/cors.py"],[("CORSMiddleware.__init__/is_allowed_origin/preflight_response/send","starlette/middleware/cors.py")],
 ["response headers, status"])
p("C16","Compressed responses decode to the original, with consistent headers",
 "For every sequence of response messages from the application, the body the client obtains after decoding equals the application's body and the number and order of final messages is preserved; Content-Encoding is added only when the body was actually compressed here, Content-Length is then the compressed length or absent for streams, and Vary then includes Accept-Encoding. Responses already encoded, of excluded type, complete and below the minimum size, or to clients not accepting gzip are delivered unchanged (apart from Vary); every other response is encoded.",
 ["inputs","histories"],"all bodies, chunkings of any length, thresholds, header sets",
 "Tests send three or four bodies.",
 ["starlette/middleware/gzip.py"],[("IdentityResponder.send_with_compression","starlette/middleware/gzip.py"),("GZipResponder.apply_compression","starlette/middleware/gzip.py")],
 ["messages sent"])
p("C17","Sessions come only from validly signed cookies and are written back faithfully",
 "The session seen by the application is the decoded content of the session cookie if its signature verifies within the configured age, and empty otherwise. On response start a cookie holding the signed current session is set when the session is non-empty, a clearing cookie when it became empty after being loaded, and none when it was and stays empty; the cookie always carries the configured path, domain, HttpOnly, SameSite and Secure attributes and lifetime.",
 ["inputs","histories","configurations"],"all cookies (valid, expired, forged), all session contents before and after, all configurations",
 "Tests use one secret and a few requests; forgeries are sampled once.",
 ["starlette/middleware/sessions.py"],[("SessionMiddleware.__call__","starlette/middleware/sessions.py")],
 ["scope['session'], Set-Cookie"])
p("C18","Only requests with an allowed Host reach the application",
 "With a host allow-list, the wrapped application is called if and only if the Host header without its port equals a listed name or is a subdomain of a listed \"*.\" wildcard (or \"*\" is listed); otherwise the answer is a redirect to the same URL with \"www.\" prefixed when that name is listed and www redirection is on, else 400. Non HTTP/WebSocket scopes pass, and invalid wildcard patterns are refused at configuration time.",
 ["inputs","configurations"],"all Host headers and allow-lists of any length",
 "Tests try a handful of hosts.",
 ["starlette/middleware/trustedhost.py"],[("TrustedHostMiddleware","starlette/middleware/trustedhost.py")],["app called, response"])
p("C19","Insecure requests are redirected to the same URL over TLS, never served",
 "With the HTTPS redirect middleware, an http or ws request never reaches the application and is answered by a 307 redirect to the same host, path and query with scheme https or wss, where a port 80 or 443 is dropped and any other port kept; https, wss and lifespan traffic passes through unchanged.",
 ["inputs"],"all scopes, hosts, ports, paths and queries",
 "Tests use one host and three ports.",
 ["starlette/middleware/httpsredirect.py","starlette/datastructures.py"],[("HTTPSRedirectMiddleware.__call__","starlette/middleware/httpsredirect.py")],["app called, Location"])
p("C20","Protected endpoints run only with every required scope",
 "An endpoint guarded by required scopes is executed if and only if the connection's credentials include every one of them; otherwise a WebSocket is closed, and an HTTP request gets the configured status error or a 303 redirect carrying the original URL, for sync and async endpoints wherever the request argument is. The authentication layer calls the application only after the backend succeeded, with exactly its result (or unauthenticated defaults when it returns nothing), and answers authentication errors itself.",
 ["inputs","configurations"],"all scope lists of any length, all credentials, all endpoint kinds and argument positions",
 "Tests use one or two scopes.",
 ["starlette/authentication.py","starlette/middleware/authentication.py"],[("has_required_scope, requires","starlette/authentication.py"),("AuthenticationMiddleware.__call__","starlette/middleware/authentication.py")],["endpoint called"])
p("C21","Multi-dicts keep their single-value and multi-value views consistent",
 "After any sequence of operations, a multi-dict's single-value view maps each key to the last of that key's values in its ordered item list, and has exactly the keys of that list; set, setlist, pop, poplist, popitem, setdefault, append, update and delete change only the named keys and keep the relative order of the other items. Query parameters parse a query string into the same items and re-encode to an equal multi-dict.",
 ["histories","inputs"],"all multi-dict states and all operations with all arguments, hence all histories by induction",
 "Tests run each operation on a two-item example.",
 ["starlette/datastructures.py"],[("ImmutableMultiDict, MultiDict, QueryParams","starlette/datastructures.py")],["keys/values/items/multi_items/getlist"],[("_list/_dict","ordered items / last value per key","starlette/datastructures.py")])
p("C22","Headers are case-insensitive, ordered, and mutated only where asked",
 "Header lookup, membership and multi-value access ignore name case and see items in order, first value first. Setting a header leaves exactly one entry for that name at the position of its first old entry (else at the end); deleting removes all its entries; append adds one; setdefault adds only if absent and returns the effective value; Vary additions keep existing tokens; every other entry keeps its value and relative order. Copies are independent and stored names are lower-case.",
 ["histories","inputs"],"all header lists of any length, names in any case, all operations",
 "Tests use two or three headers.",
 ["starlette/datastructures.py"],[("Headers, MutableHeaders","starlette/datastructures.py")],["raw list"])
p("C23","The request URL reflects the scope, and URL edits change only what was asked",
 "The URL built from a scope is scheme, Host header (else server address with the port omitted exactly when it is the scheme's default), path and query; replacing components of a URL changes exactly the named components, keeping user, password, host and port unless named; adding, replacing or removing query parameters affects only the named keys; absolute URLs made from route paths take their scheme from the protocol and the security of the base and keep the base path prefix. A URL's repr never shows the password.",
 ["inputs"],"all scopes, all well-formed URLs with a host, all replacements",
 "Tests use a dozen URLs.",
 ["starlette/datastructures.py","starlette/requests.py"],[("URL.__init__/replace/include_query_params/remove_query_params/__repr__","starlette/datastructures.py:URL"),("URLPath.make_absolute_url","starlette/datastructures.py:URLPath"),("HTTPConnection.base_url/url_for","starlette/requests.py")],["str(url)"])
p("C24","Middleware wrap the application in the declared order, built once",
 "For every middleware list, the application runs inside exactly: the server-error layer outermost, then the user middleware first-to-last, then the exception layer, then the router; handlers for status 500 or Exception go to the server-error layer and all others to the exception layer. Route, mount and router level middleware nest the same way. The stack is built once, later additions are refused, and newly added middleware go outermost.",
 ["configurations","histories"],"all middleware and handler lists of any length",
 "Tests use one or two middleware.",
 ["starlette/applications.py","starlette/middleware/__init__.py",R],[("build_middleware_stack","starlette/applications.py"),("middleware loops",R+":Route.__init__, Mount.__init__, Router.__init__")],["nesting of calls"])
p("C25","Lifespan reports startup and shutdown truthfully",
 "The lifespan exchange sends startup-complete exactly after the startup part finished and shutdown-complete exactly after the shutdown part finished; an error sends the matching failed message exactly once with the traceback and is re-raised, and complete is then never sent for that phase. State produced at startup is placed in the server's state (an error if unsupported). Startup and shutdown handlers run once each, in order, stopping at the first failure.",
 ["fault_sequences","histories"],"all handler lists of any length, all failure points, with and without state",
 "Tests cover one failure per phase.",
 [R],[("Router.lifespan",R+":Router.lifespan"),("Router.startup/shutdown",R),("_DefaultLifespan",R)],["messages sent, handler calls"])
p("C26","Background tasks run once, in order, with their own arguments",
 "A background task calls its function exactly once per invocation with exactly the arguments it was created with, awaiting coroutine functions and running others in a worker thread; a task list runs its tasks one after another in insertion order, stops at the first failure, and later additions do not affect the list it was created from.",
 ["configurations","fault_sequences"],"all task lists of any length, all failure points, sync/async",
 "Tests use one to three tasks.",
 ["starlette/background.py","starlette/concurrency.py","starlette/_utils.py"],[("BackgroundTask(s).__call__","starlette/background.py"),("is_async_callable","starlette/_utils.py")],["calls made"])
p("C27","Configuration precedence, casting, and read-once environment",
 "A configuration value is taken from the environment if present there, else from the file, else the default, else a missing-key error; the prefix applies to every lookup, the cast is applied to whichever source was used (booleans only from true/false/1/0 in any case), and a failing cast is a value error. An environment key that has been read can no longer be set or deleted, while others can. File lines are parsed as key=value with surrounding blanks and quotes removed, ignoring comments and other lines.",
 ["inputs","histories"],"all keys, values, defaults, casts, prefixes, files and operation sequences",
 "Tests use one file and a few keys.",
 ["starlette/config.py"],[("Config.get/_perform_cast/_read_file","starlette/config.py"),("Environ","starlette/config.py")],["value or error"])
p("C28","Cookies: attributes as requested, deletion expires, parsing keeps every pair",
 "Setting a cookie appends exactly one Set-Cookie header containing the name, value and exactly the requested attributes (path, domain, max-age, expires, secure, httponly, samesite), leaving other headers alone; an invalid samesite is refused; deleting a cookie sets max-age 0 with the same scope attributes. Parsing a Cookie header yields, for each \";\"-separated pair, the stripped name and the unquoted stripped value, the last one winning.",
 ["inputs"],"all attribute combinations, all Cookie headers of any length",
 "Tests use fixed attribute sets and a table of headers.",
 ["starlette/responses.py","starlette/requests.py"],[("Response.set_cookie/delete_cookie","starlette/responses.py"),("cookie_parser","starlette/requests.py")],["Set-Cookie header, request.cookies"])
p("C29","Class endpoints dispatch each method to its own handler or answer 405",
 "A class-based HTTP endpoint calls exactly one handler, once: the one named after the request method, or the GET handler for HEAD when it has no HEAD handler; a standard method without handler yields 405 with an Allow header listing exactly the methods the class defines. The handler's response is sent exactly once, sync handlers running in a worker thread.",
 ["inputs","configurations"],"all subsets of handlers, all standard methods, sync and async, inside and outside an application",
 "Tests define two or three methods.",
 ["starlette/endpoints.py"],[("HTTPEndpoint.__init__/dispatch/method_not_allowed","starlette/endpoints.py")],["handler calls, response"])
p("C30","Function middleware pass the request body downstream intact",
 "Below a dispatch-function middleware, whatever the dispatch function did with the request before calling on: if it read the body the downstream receives that whole body in one message, if it consumed the stream downstream receives one empty final body, and if it did neither, downstream receives exactly the server's chunks in order; afterwards downstream sees only a disconnect and never a repeated body, and a client disconnect is passed on as such.",
 ["inputs","histories"],"all message sequences and all prior uses of the request, one receive step at a time (hence all histories)",
 "Tests cover about ten combinations.",
 ["starlette/middleware/base.py"],[("_CachedRequest.wrapped_receive","starlette/middleware/base.py")],["messages handed downstream"])
p("C31","Function middleware relay responses and errors under every schedule",
 "Under every interleaving of the downstream application, the dispatch function and the server, a dispatch-function middleware relays the downstream response exactly once with its status, headers and body in order, raises the downstream exception if no response was produced, and leaves no task behind.",
 ["schedules","fault_sequences"],"all task interleavings and cancellation points",
 "Tests run under whatever schedule the event loop happens to pick.",
 ["starlette/middleware/base.py"],[("BaseHTTPMiddleware.__call__ task group and memory streams","starlette/middleware/base.py")],["messages sent, tasks"])
p("C32","The test client presents the application's exchange faithfully",
 "For every request, the scope given to the application states the request's method, decoded path, raw path, query, headers and host truthfully; the response object has exactly the status, headers and concatenated body the application sent (no body for HEAD). Application exceptions are re-raised, or become a 500 when so configured, and protocol violations by the application (double start, body before start, body after end) are reported as errors.",
 ["inputs","histories"],"all requests and all message sequences sent by the application",
 "The test suite uses the client but samples only well-behaved applications.",
 ["starlette/testclient.py"],[("_TestClientTransport.handle_request","starlette/testclient.py")],["httpx response, scope"])
p("C33","OpenAPI schema generation covers every documented endpoint once",
 "Endpoint discovery for schemas lists, for every route included in the schema and every method it handles (HEAD excluded), exactly one entry with the full path through all enclosing mounts and convertor suffixes removed; excluded routes and non-HTTP routes contribute nothing; the base schema's own entries are preserved.",
 ["configurations"],"all route trees",
 "Tests use one route tree.",
 ["starlette/schemas.py"],[("BaseSchemaGenerator.get_endpoints","starlette/schemas.py"),("SchemaGenerator.get_schema","starlette/schemas.py")],["endpoint list"])
p("C34","The WSGI bridge hands over the request and returns the response unchanged",
 "The environ given to a WSGI application reflects the scope (method, script name, path, query, every header under its CGI name with repeated headers joined in order) and a body equal to all received chunks; the ASGI response is one start with the WSGI status and headers, then the WSGI chunks in order, then one final body message, and an error passed to start_response is raised.",
 ["inputs"],"all scopes, header lists, body chunkings and WSGI chunk sequences",
 "Tests use a few fixed requests.",
 ["starlette/middleware/wsgi.py"],[("build_environ","starlette/middleware/wsgi.py"),("WSGIResponder","starlette/middleware/wsgi.py")],["environ, messages"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
