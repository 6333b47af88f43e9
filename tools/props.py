"""single source of properties.jsonl and MANIFEST.json (see gen_meta.py)"""
PROPS = []
NA = []

TRUST = ("Trusts: the interpreter in sa/ (abstract interpretation of the Python AST, path facts instead of a solver), the documented "
         "behaviour of the stdlib/anyio calls modelled in sa/lib.py, and that user code keeps to the ASGI calling convention. ")


def P(id, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                      _technique=technique, _note=note, _claimed=claimed, _na=na))


AI = "path-sensitive abstract interpretation of the AST, "

P("C01", "Response message discipline and background tasks",
  "Calling any response class sends exactly one http.response.start (only extension messages such as debug or push may precede it), then body messages of which exactly the last has more_body false, and nothing afterwards. "
  "The stream may be left incomplete only when the client disconnected or sending/iterating raised. "
  "A background task attached to the response is run exactly once on every normal completion, error answers included, and never before the final body message has been sent.",
  ["inputs", "schedules", "fault_sequences"],
  "every response class, method, scope extension set, range/conditional header combination, body iterator length, and disconnect point",
  "Tests sample a few responses with TestClient, which normalises message sequences; they cannot enumerate extension/range/disconnect combinations, and background tasks are only checked on the happy path.",
  ["starlette/responses.py", "starlette/background.py", "starlette/endpoints.py"],
  [("Response.__call__", "starlette/responses.py"), ("StreamingResponse.__call__/stream_response", "starlette/responses.py"), ("FileResponse.__call__ and _handle_*", "starlette/responses.py")],
  AI + "typestate of the response message stream",
  TRUST + "Task groups are sequentialised: a spawned task runs to completion or is cut at one of its awaits.")

P("C04", "WebSocket protocol state is enforced",
  "A WebSocket object forwards a message to the server only when the ASGI websocket protocol allows it in the current state (accept or close or a denial response first, then send/close, nothing after close), and raises RuntimeError or WebSocketDisconnect instead of sending or receiving out of order. "
  "client_state and application_state always describe the messages exchanged so far, and a server send that fails with OSError surfaces as WebSocketDisconnect with code 1006. "
  "The convenience methods (accept, receive_*/send_* text/bytes/json, iter_*, close, send_denial_response) exchange exactly the messages their names say, with the caller's data.",
  ["histories", "fault_sequences"],
  "every sequence of application operations and server messages, including unknown message types and failing sends",
  "Tests run a handful of conversations; the guarantee is about every order of operations, including illegal ones after each prefix.",
  ["starlette/websockets.py"],
  [("WebSocket.send / WebSocket.receive state machine", "starlette/websockets.py"), ("WebSocket convenience coroutines", "starlette/websockets.py")],
  AI + "typestate bisimulation against the protocol automaton",
  TRUST + "Message payload values are symbolic; json encoding itself is not re-verified.")

P("C16", "TrustedHostMiddleware admits only allowed hosts",
  "An http or websocket request reaches the application if and only if its Host header, without the port, equals one of the allowed host names or ends with the dotted suffix of an allowed *.domain wildcard (or * is allowed). "
  "Every other request is answered by the middleware itself: a redirect to the www. form of the host when that option is on and that host is allowed, otherwise a 400 response. "
  "Malformed wildcard patterns are refused at construction.",
  ["inputs", "configurations"],
  "every request (any headers, path, type) under representative allow-lists covering exact names, wildcards, mixtures, empty and universal lists",
  "Host header values and header combinations are unbounded; tests use a few literal hosts.",
  ["starlette/middleware/trustedhost.py"],
  [("TrustedHostMiddleware.__call__ host match", "starlette/middleware/trustedhost.py"), ("wildcard assertion in the constructor", "starlette/middleware/trustedhost.py")],
  AI + "path facts must decide the admission formula",
  TRUST + "Configurations are a finite representative family; host strings are symbolic. IPv6 literal hosts are outside the formula (text before the first colon is the host).")

P("C17", "HTTPSRedirectMiddleware never lets insecure requests through",
  "An http or websocket request whose scheme is http or ws never reaches the application: it is answered with one temporary, method-preserving redirect (307/308) to the same URL with the scheme https respectively wss, keeping path and query, dropping an explicit default port and keeping any other port. "
  "A request with any other scheme reaches the application unchanged.",
  ["inputs"],
  "every scheme and scope type, with symbolic headers, path, query and server address",
  "URL components are unbounded and tests check four literal URLs.",
  ["starlette/middleware/httpsredirect.py", "starlette/datastructures.py"],
  [("HTTPSRedirectMiddleware.__call__", "starlette/middleware/httpsredirect.py"), ("URL(scope=...) and URL.replace", "starlette/datastructures.py")],
  AI + "term structure of the Location header",
  TRUST + "urllib's URL splitting/joining is trusted; a request with neither Host header nor server address has no URL and is outside the property.")

P("C19", "AuthenticationMiddleware gates the application on the backend",
  "For every http or websocket request the authentication backend is consulted exactly once before the application, which then sees exactly the credentials and user the backend returned, or empty credentials and an unauthenticated user when it returned nothing. "
  "If the backend raises AuthenticationError the application is not reached: an http request gets exactly the response of on_error (by default a 400) and a websocket exactly one close. "
  "Any other exception, and any exception raised by the application, propagates.",
  ["inputs", "fault_sequences", "configurations"],
  "every backend outcome (nothing, pair, AuthenticationError, other error), connection type, default or custom on_error",
  "Tests exercise one backend; they cannot show that no path reaches the application without consulting the backend.",
  ["starlette/middleware/authentication.py", "starlette/authentication.py"],
  [("AuthenticationMiddleware.__call__", "starlette/middleware/authentication.py"), ("AuthCredentials / UnauthenticatedUser", "starlette/authentication.py")],
  AI + "most general backend, event-order monitor",
  TRUST)

P("C08", "Middleware stacks are built once, in the documented order",
  "A request passes server-error handling, then added middleware (latest added outermost), then the middleware list in order, then exception handling, then the router; a router's, route's or mount's own middleware wraps exactly that in list order; each is built once per application with exactly its declared arguments, and http, websocket and lifespan connections all pass the application's. "
  "Handlers for statuses and exception classes act inside all middleware; the 500/Exception handler (none in debug mode) acts outside, after which the exception is raised to the server. "
  "add_middleware on an application that has served is refused without effect; the list and mapping given to the constructor are neither changed nor shared; scope['app'] is the application throughout.",
  ["configurations", "histories", "inputs"],
  "representative stacks (constructor list, add_middleware, factories, shared lists, nested router / mount / route middleware) with endpoints and middleware that return or raise; first and later requests",
  "Order and identity of the wrapping are visible only with several layers that fail or record, over several requests and applications.",
  ["starlette/applications.py", "starlette/routing.py", "starlette/middleware/__init__.py"],
  [("Starlette.build_middleware_stack / __call__ / add_middleware", "starlette/applications.py"), ("Router / Route / WebSocketRoute / Mount.__init__", "starlette/routing.py"), ("Middleware", "starlette/middleware/__init__.py")],
  AI + "client programs with recording middleware, event sequence per path",
  TRUST)

P("C09", "Router picks the first full match, then partial, redirect, default",
  "For any routes: a Router asks them in order and the first full match handles the request (exactly one handle call, with the request's own scope, receive and send, and only that route's child scope merged into the scope); otherwise the first partial match does. "
  "Without a match, an http request whose path is not '/' is answered with a 307 redirect to the same URL with the path's trailing slash toggled exactly when redirect_slashes is on and some route matches that path; everything else goes to the default (404, raised as HTTPException inside an application; close for a websocket). "
  "The request's path is unchanged, scope['router'] stays the outermost router, and exceptions of routes propagate.",
  ["programs", "inputs", "configurations"],
  "arbitrary route objects (every combination of NONE/PARTIAL/FULL answers of up to three routes, for the request and for the toggled path), both protocols, redirect on/off, custom or built-in default, with or without an enclosing application",
  "The order and number of matches and what a discarded match left in the scope depends on the route table; tests use a few tables.",
  ["starlette/routing.py", "starlette/responses.py", "starlette/datastructures.py"],
  [("Router.app / Router.not_found", "starlette/routing.py"), ("URL(scope=...)", "starlette/datastructures.py"), ("RedirectResponse", "starlette/responses.py")],
  AI + "most general route objects (nondeterministic matches/handle), event-order and scope-content rules",
  TRUST)

P("C10", "Routes match exactly their path template and convert its parameters",
  "For every route template, request path and method: Route (http only) and WebSocketRoute (websocket only) match exactly the paths their template describes (whole path, literals taken literally, each parameter capturing what its convertor's documented pattern accepts); anything else is no match. "
  "A match yields a new path_params dictionary, the outer parameters overridden by the route's own converted ones, leaving scope and outer dictionary unchanged; it is full when the method is allowed (GET implies HEAD, none declared means all) and partial otherwise, which is answered 405 with exactly the allowed methods in Allow, without calling the endpoint. "
  "Templates with an unknown convertor, a repeated parameter or no leading slash are refused; a route used alone as an application answers 404 (or closes the websocket) for what it does not match.",
  ["inputs", "configurations"],
  "every request path and method, for representative templates of every convertor (and a registered one), several parameters, and literals with regular-expression characters",
  "A wrong pattern differs from the template on paths nobody thought to test (a trailing newline, a dot in a literal, an odd digit).",
  ["starlette/routing.py", "starlette/convertors.py"],
  [("compile_path", "starlette/routing.py"), ("Route.matches / Route.handle / WebSocketRoute.matches", "starlette/routing.py"), ("CONVERTOR_TYPES", "starlette/convertors.py")],
  AI + "decision of regular-language equivalence between the folded pattern and the template (group boundaries included), path facts for methods",
  TRUST)

P("C11", "Mount and Host take what they describe and hand on a consistent scope",
  "A Mount takes exactly the http and websocket connections whose route path is its template followed by '/' and anything, a Host those whose Host header without port is described by its template. "
  "The child scope has root_path = outer root_path + matched part (Mount only; path untouched, app_root_path that of the outermost scope), the outer path_params overridden by the own converted ones, and leaves the outer dictionary unchanged; so routes below match the rest of the path, at every nesting depth and below any server root_path. "
  "A root_path is only stripped from the path when it is a prefix ending at a segment boundary.",
  ["inputs", "configurations"],
  "every request path, Host header, root_path and outer parameters; representative mount and host templates, nested routers",
  "The scope after two mounts below a proxy prefix is arithmetic on strings that tests check at a few points.",
  ["starlette/routing.py", "starlette/_utils.py"],
  [("Mount.matches / Host.matches", "starlette/routing.py"), ("get_route_path", "starlette/_utils.py"), ("compile_path", "starlette/routing.py")],
  AI + "strings as sequences of known and unknown pieces, regular-language equivalence for templates",
  TRUST)

P("C12", "url_path_for and url_for build the URL of the named route",
  "url_path_for(name, **params) gives the first route (in order, ':'-joined names below mounts and hosts) with that name and exactly these parameters: the template with every placeholder replaced by its convertor's text of the value, below the paths of its mounts, with protocol http or websocket and the host of an enclosing Host; values are taken as they are, never searched or replaced in. "
  "Everything else (unknown name, missing or extra parameters) is NoMatchFound; a str value that is empty or contains '/' and a negative int are refused. "
  "An absolute URL has the scheme of the protocol (https/wss iff the base URL is secure), the route's host or else the base's, and the base path followed by the path; Request.url_for uses the request's router (else the app) and the app's root path.",
  ["inputs", "configurations"],
  "every parameter value, for a representative route table (all convertors, nested / nameless mounts, hosts, repeated names) and 33 wrong combinations; base URLs with every scheme, path prefix and host; scopes with or without router, app and root paths",
  "A value that looks like a placeholder, or a child parameter named like the mount's own, breaks links only for particular data.",
  ["starlette/routing.py", "starlette/datastructures.py", "starlette/requests.py", "starlette/convertors.py"],
  [("Router / Route / Mount / Host.url_path_for", "starlette/routing.py"), ("replace_params", "starlette/routing.py"), ("URLPath.make_absolute_url", "starlette/datastructures.py"), ("HTTPConnection.url_for / base_url", "starlette/requests.py")],
  AI + "strings and URLs as sequences of known and unknown pieces",
  TRUST)

P("C21", "URLs are built, rebuilt and masked component by component",
  "URL.replace changes exactly the given components (user name, password, host, port, scheme, path, query, fragment) and keeps all others, for URLs with user info, IPv6 literals, an empty host or none of these; the include / replace / remove query operations touch only the named parameters and keep blank and repeated values; the original URL is unchanged. "
  "The URL of a connection is its scheme, the first Host header or else the server address (default port left out, IPv6 in brackets), its path and its query string; its base URL has the application's root path with one trailing slash and no query; a URLPath becomes absolute with its own protocol and host, else the base URL's. "
  "The repr of a URL is the URL with its password masked and never fails; the repr of a Secret is the same whatever its value.",
  ["inputs", "histories"],
  "25 URLs x replacements of every component, every pair (thorough: triples and more); 8 query strings x 17 query operations; 120 connection scopes; 72 base URLs and URL paths",
  "URL syntax has many rare shapes (user info with '@' or ':', IPv6, empty host, blank values) that tests sample one at a time, and a masked secret must be masked in all of them.",
  ["starlette/datastructures.py", "starlette/requests.py"],
  [("URL.replace", "starlette/datastructures.py"), ("URLPath.make_absolute_url", "starlette/datastructures.py"), ("Secret", "starlette/datastructures.py")],
  AI + "constant propagation through client programs, and a dependence check of the repr on the secret",
  TRUST + "A password given to a URL without user name, and user info or port given to a URL without authority, are not judged; urlsplit and urlunsplit are trusted.")

P("C22", "TemplateResponse renders its template for this request only",
  "Every calling convention of TemplateResponse (request first; the deprecated name first or keywords only; any split into positional and keyword arguments; context None or omitted) renders the named template once with the caller's context, the request (unless the caller supplied one) and the values of the context processors in order, and answers with that body and the given status, headers, media type and background task; a deprecated call without a request is a ValueError. "
  "The caller's dictionary is not changed, so one shared between requests never carries one request's data into another response. "
  "url_for in templates uses the request of the rendering context (an environment's own url_for is kept), a directory gives an autoescaping environment unless options say otherwise, and http.response.debug is sent first exactly when the server offers it.",
  ["inputs", "histories", "programs"],
  "3 calling conventions x every number of arguments x every split x 3 contexts x 0-2 context processors; sequences of three requests sharing a context",
  "Calling conventions multiply, and leaks between requests need a history no single-request test has.",
  ["starlette/templating.py"],
  [("Jinja2Templates.TemplateResponse", "starlette/templating.py"), ("_TemplateResponse", "starlette/templating.py")],
  AI + "constant propagation with a model of the template engine",
  TRUST + "The template engine itself is a model that records what it renders.")

P("C23", "Blocking work runs in worker threads, never on the event loop",
  "Reading, writing, seeking and closing an UploadFile gives what the file gives, keeps size current, and touches the disk (a rolled-over or ordinary file, or the write that makes a spooled file roll over) only in a worker thread. "
  "A synchronous iterable given to StreamingResponse or iterate_in_threadpool is advanced one item at a time, in order, to its end in worker threads and its exceptions propagate; plain functions given as endpoint, HTTP method, exception handler, background task or WSGI application run in a worker thread with their arguments, coroutine functions (also partials and objects with an async __call__) on the event loop. "
  "StaticFiles and FileResponse look at the file system in worker threads only, and no call path from a coroutine function of the package reaches a blocking library function directly.",
  ["inputs", "histories", "programs"],
  "all UploadFile operation sequences up to length 2 (3 in the thorough tier) on 5 kinds of file; 11 kinds of callable x 7 places; iterators failing at every step; all coroutine functions of the package",
  "Work on the wrong thread gives the right answer in every test and stalls the server under load.",
  ["starlette/concurrency.py", "starlette/_utils.py", "starlette/datastructures.py", "starlette/staticfiles.py", "starlette/responses.py", "starlette/background.py", "starlette/_exception_handler.py"],
  [("run_in_threadpool", "starlette/concurrency.py"), ("iterate_in_threadpool", "starlette/concurrency.py"), ("is_async_callable", "starlette/_utils.py"), ("UploadFile.write", "starlette/datastructures.py")],
  AI + "effect analysis with a worker-thread model and call-path search",
  TRUST + "Blocking library functions are a fixed list (open, os.stat and relatives, os.path tests, time.sleep, subprocess, socket, shutil); rendering, JSON and parsing count as computation.")

P("C25", "BaseHTTPMiddleware relays request, response and exceptions faithfully",
  "Around any dispatch function: the response call_next returns, when dispatch returns it, reaches the server with the application's status, headers and body bytes in order and exactly one final body message; a response dispatch makes itself is sent instead. "
  "The application sees the request body dispatch left unread (the whole body after request.body(), nothing after request.stream()), then a disconnect. "
  "An exception of the application reaches dispatch through call_next, or (once its response has started) leaves the middleware unwrapped without its unfinished response being completed; it is never swallowed and never raised again after dispatch handled it, and an application still sending or receiving when the response is complete is released.",
  ["schedules", "inputs", "fault_sequences", "programs"],
  "dispatch functions (pass, read the body / stream / part of it, catch, answer instead, raise), applications raising before any message, request chunkings, and the middleware finishing before any send or receive of the application",
  "Which side of the channel finishes first, and where the application raises, is decided by the schedule; tests sample a few.",
  ["starlette/middleware/base.py", "starlette/_utils.py", "starlette/requests.py"],
  [("BaseHTTPMiddleware.__call__ / call_next", "starlette/middleware/base.py"), ("_CachedRequest.wrapped_receive", "starlette/middleware/base.py"), ("collapse_excgroups", "starlette/_utils.py")],
  AI + "sequentialised task group / event / channel model with parent-finished-first forks, client dispatch programs",
  TRUST)

P("C35", "GZipMiddleware compresses completely, or changes nothing but Vary",
  "Through GZipMiddleware every response is either forwarded untouched (messages one to one and in order, same bodies and headers, at most Accept-Encoding added to Vary), or compressed: the forwarded bodies together are one complete gzip stream of all the application's chunks in order, with Content-Encoding: gzip, Vary: Accept-Encoding in addition to the application's Vary, and no Content-Length other than the compressed size. "
  "It is compressed exactly when the client's Accept-Encoding contains gzip, the application set no Content-Encoding, the content type is not text/event-stream, and the body is streamed or has at least minimum_size bytes; a response whose body is announced by another message type is not compressed. "
  "The configured compression level is used and every request has its own stream.",
  ["inputs", "configurations", "histories"],
  "every request header, response status, headers, body size and chunking, minimum size and compression level",
  "Tests compress a handful of bodies; corruption needs a particular chunking, an existing header or an extension message.",
  ["starlette/middleware/gzip.py", "starlette/datastructures.py"],
  [("GZipMiddleware / GZipResponder", "starlette/middleware/gzip.py"), ("MutableHeaders.add_vary_header", "starlette/datastructures.py")],
  AI + "abstract gzip stream (token) domain with buffer positions, path facts must justify compression",
  TRUST)

P("C37", "Middleware passes through scopes it must not touch",
  "Every bundled middleware hands a lifespan scope, a scope of an unknown type and (for the HTTP-only middleware) a websocket scope to the wrapped application with the very same scope, receive and send, exactly once, without sending, receiving or changing anything itself. "
  "What the application raises leaves the middleware unchanged.",
  ["inputs", "configurations"],
  "every middleware class in the package, every scope type, symbolic options",
  "Tests mostly send http scopes; a class that breaks lifespan or websocket pass-through for some option goes unnoticed.",
  ["starlette/middleware/base.py", "starlette/middleware/cors.py", "starlette/middleware/gzip.py", "starlette/middleware/sessions.py", "starlette/middleware/authentication.py", "starlette/middleware/trustedhost.py", "starlette/middleware/httpsredirect.py", "starlette/middleware/errors.py", "starlette/middleware/exceptions.py"],
  [("scope type guard at the top of each __call__", "starlette/middleware/*.py")],
  AI + "identity and effect check per middleware class",
  TRUST + "The deprecated WSGI adapter is not an ASGI wrapper and is excluded.")

P("C38", "Middleware forwards the application's messages faithfully",
  "A middleware that wraps an application's send (sessions, CORS, authentication, trusted host, HTTPS redirect, error and exception middleware) hands every message the application sends to the server exactly once, in order, with unchanged type and fields, except that it may add its own response headers to the response start. "
  "It passes the receive channel through, sends nothing of its own once the application took over (error middleware: only after the application raised), and lets the application's exception leave.",
  ["programs", "histories", "configurations"],
  "every application message script of the covered kinds (whole, streamed, extension messages, silent, raising) and representative options",
  "Tests use ordinary responses; message types and orders that applications may produce are unbounded.",
  ["starlette/middleware/cors.py", "starlette/middleware/sessions.py", "starlette/middleware/errors.py", "starlette/middleware/exceptions.py"],
  [("send wrappers of each middleware", "starlette/middleware/*.py"), ("wrap_app_handling_exceptions sender", "starlette/_exception_handler.py")],
  AI + "most general inner application, message-by-message comparison",
  TRUST + "Application scripts are a finite family with symbolic payloads.")

P("C14", "Sessions come only from signed cookies and are persisted faithfully",
  "The session an application sees is either empty or exactly the decoded data of a session cookie of this request whose signature verified with the configured secret and maximum age; it is never shared between requests. "
  "At the response start, a non-empty session is written back as one freshly signed Set-Cookie with the configured cookie name, path, max-age, SameSite, Secure, HttpOnly and domain attributes; "
  "a session that was loaded non-empty and is now empty gets an expiring cookie; otherwise no Set-Cookie is added.",
  ["inputs", "configurations", "histories"],
  "every request cookie (absent, invalid, valid), every application effect on the session, representative option sets, after another request on the same middleware",
  "Cookie contents are adversarial and unbounded; tests check a few strings and never the absence of cross-request leaks.",
  ["starlette/middleware/sessions.py"],
  [("SessionMiddleware.__call__ and send_wrapper", "starlette/middleware/sessions.py"), ("signer construction and cookie attributes", "starlette/middleware/sessions.py")],
  AI + "taint of the session value to the verified cookie, term comparison of Set-Cookie",
  TRUST + "Trusts itsdangerous' signature primitive; JSON and base64 round trips are assumed inverse.")

P("C15", "CORS answers exactly the configured policy",
  "A preflight (OPTIONS with Origin and Access-Control-Request-Method) is answered by the CORS middleware alone: 200 only if the origin, the requested method and every requested header are allowed by the configuration, otherwise 400; every other request reaches the application. "
  "Responses to requests with an Origin carry Access-Control-Allow-Origin only for an allowed origin: * or the request's own origin (always the latter, with Vary: Origin, when the answer depends on it; never * together with a cookie-bearing request), and Allow-Credentials, Expose-Headers, Max-Age, Allow-Methods, Allow-Headers exactly as configured. "
  "The headers sent for one request never depend on an earlier request.",
  ["inputs", "configurations", "histories"],
  "every method and header combination under nine representative configurations (wildcard, listed, regular expression origins; credentials; listed or wildcard headers), after another request",
  "Origins and header lists are unbounded and adversarial; tests cover a few literal combinations per configuration.",
  ["starlette/middleware/cors.py"],
  [("CORSMiddleware.is_allowed_origin", "starlette/middleware/cors.py"), ("CORSMiddleware.preflight_response", "starlette/middleware/cors.py"), ("CORSMiddleware.simple_response / send", "starlette/middleware/cors.py")],
  AI + "path facts must decide the CORS formulas; term comparison of headers",
  TRUST + "Configurations are a finite representative family; origins, methods and headers are symbolic.")

P("C18", "requires() runs the function only with every required scope",
  "A function decorated with requires() runs if and only if the connection's credentials contain every required scope; it then gets exactly the caller's arguments and its result is returned, and a coroutine function stays a coroutine function. "
  "Otherwise an HTTP handler raises HTTPException with the configured status code or, with redirect=, returns a 303 redirect to that route carrying the original URL in next, and a websocket handler closes the connection. "
  "A function without a request or websocket parameter is refused when decorated.",
  ["inputs", "configurations"],
  "every granted scope set, for single/multiple/no required scopes, sync, async, callable-object and websocket functions, parameter passed by position or name",
  "Which scopes a backend grants is unbounded; tests check two scopes on a few handlers.",
  ["starlette/authentication.py", "starlette/_utils.py"],
  [("requires() wrappers", "starlette/authentication.py"), ("has_required_scope", "starlette/authentication.py"), ("is_async_callable", "starlette/_utils.py")],
  AI + "path facts must decide scope membership",
  TRUST)

P("C06", "Server errors become one 500 answer and always propagate",
  "When the application raises, ServerErrorMiddleware sends exactly one complete 500 answer (the debug page, the configured handler's response, or a constant text) if no response had started and nothing otherwise, and then re-raises the very same exception. "
  "Without debug the built-in answer contains nothing about the exception; in debug mode exception data appears in the HTML page only html-escaped. "
  "A configured handler gets (request, exception) exactly once, awaited if it is a coroutine function and run in the thread pool otherwise.",
  ["fault_sequences", "configurations"],
  "an application raising before or after its response start, debug on/off, no/sync/async handler, symbolic tracebacks",
  "The content of exceptions and frames is unbounded and adversarial; tests check one simple traceback and a few raise points.",
  ["starlette/middleware/errors.py"],
  [("ServerErrorMiddleware.__call__", "starlette/middleware/errors.py"), ("generate_html / generate_frame_html / format_line", "starlette/middleware/errors.py")],
  AI + "event-order monitor and taint analysis of the debug page",
  TRUST + "html.escape is trusted; the constant page templates are not parsed, only the holes filled into them.")

P("C07", "Exception handlers are chosen and run as registered",
  "An exception raised inside the application is answered by the handler registered for its status code (HTTPException), else by the one registered for the most specific class in its inheritance order; the handler runs exactly once with (connection, exception), awaited if it is a coroutine function and in the thread pool otherwise, and its response is sent once. "
  "Exceptions without a handler and exceptions not derived from Exception leave unchanged; if the response had already started a handled exception becomes a RuntimeError showing the original and nothing more is sent. "
  "By default HTTPException is answered with its status, detail and headers (no body for 204 and 304) and WebSocketException with one close carrying its code and reason.",
  ["fault_sequences", "configurations", "inputs"],
  "representative handler tables (status, class hierarchies in both orders, replaced defaults), http and websocket, exceptions before and after the response start, symbolic status/detail/headers",
  "Handler tables, class hierarchies and raise points combine without bound; tests use one table.",
  ["starlette/_exception_handler.py", "starlette/middleware/exceptions.py", "starlette/exceptions.py"],
  [("wrap_app_handling_exceptions", "starlette/_exception_handler.py"), ("ExceptionMiddleware defaults", "starlette/middleware/exceptions.py")],
  AI + "event-order monitor against the lookup specification",
  TRUST)

P("C02", "Endpoints are invoked once, on the right connection, in the right place",
  "A route whose endpoint is a function, method or partial calls it exactly once per request with one Request (or WebSocket) built on that request's scope and channels; coroutine functions are awaited on the event loop, plain functions run in the thread pool, and the returned response is called once with the request's scope, receive and send. "
  "An exception of the endpoint is answered once by the handlers registered for the request, inside the route's own middleware, or leaves unchanged; class endpoints are called as ASGI applications. "
  "An HTTPEndpoint runs the handler named after the request method (HEAD by get when there is no head) and answers any other method with 405 and the implemented methods in Allow, through HTTPException inside an application.",
  ["programs", "inputs", "fault_sequences"],
  "every kind of endpoint (function, method, partial, class, object), sync and async, every request method, returning or raising, with and without handlers",
  "The combinations of endpoint kind, method, failure and handler table are a product tests only sample; that nothing runs on the wrong thread or twice is not visible in a response.",
  ["starlette/routing.py", "starlette/endpoints.py", "starlette/_exception_handler.py"],
  [("request_response / websocket_session", "starlette/routing.py"), ("HTTPEndpoint.dispatch", "starlette/endpoints.py"), ("wrap_app_handling_exceptions", "starlette/_exception_handler.py")],
  AI + "event-order monitor over representative client programs",
  TRUST + "Endpoint kinds are a finite representative family; the endpoint's behaviour is the most general one (returns an unknown response or raises).")

P("C05", "WebSocketEndpoint life cycle and payload decoding",
  "For each connection a WebSocketEndpoint calls on_connect once first, on_receive once per received message in order, and once connected on_disconnect exactly once last: with the client's close code (1000 if it gave none), or 1011 if a callback raised, whose exception then leaves. "
  "on_receive gets the text, the bytes, the parsed JSON, or whichever payload is present according to encoding; a payload of another kind or malformed JSON closes the socket with 1003 and raises instead of being delivered.",
  ["histories", "inputs", "fault_sequences"],
  "conversations of up to three messages (text, bytes, null fields, empty payloads) for every encoding, every disconnect code form, callbacks that return, raise or are cancelled",
  "Message sequences, servers that send both fields, and failures inside callbacks multiply; tests run one conversation per encoding.",
  ["starlette/endpoints.py", "starlette/websockets.py"],
  [("WebSocketEndpoint.dispatch", "starlette/endpoints.py"), ("WebSocketEndpoint.decode", "starlette/endpoints.py")],
  AI + "event-order monitor against the life-cycle automaton",
  TRUST + "Conversations are bounded to three messages before the disconnect; payload values are symbolic.")

P("C13", "StaticFiles serves only files inside its directories, with the right status",
  "StaticFiles looks at and opens only paths that, resolved (with all symbolic links, unless follow_symlink is set), lie inside one of its configured directories resolved the same way; the directories are tried in order and the first entry found, if it is a regular file, is served with 200; a configured directory that is missing or none is a RuntimeError, at construction or, unchecked there, at every request. "
  "Otherwise the answer is 404 (also for over-long names and null bytes), 401 when permission is denied, other system errors propagate, and methods other than GET and HEAD get 405 without touching the file system. "
  "In html mode a directory answers with its index.html, after a redirect to the same URL with '/' appended if the path lacks it, and everything not found answers with 404.html and status 404 if there is one.",
  ["inputs", "configurations", "fault_sequences"],
  "a symbolic request path (at the root and below a mount), every combination of html and follow_symlink, a directory and a package, every outcome of each look at the file system",
  "Containment must hold for every path and every arrangement of links; tests try a handful of traversal strings.",
  ["starlette/staticfiles.py"],
  [("StaticFiles.lookup_path", "starlette/staticfiles.py"), ("StaticFiles.get_response", "starlette/staticfiles.py")],
  AI + "path analysis against a symbolic file system, with established-containment facts",
  TRUST + "os.path.realpath / commonpath mean what they say; files do not change between the check and the use.")

P("C03", "FileResponse answers exactly the requested bytes with matching headers",
  "A FileResponse sends the whole file with its size as Content-Length, or, for a Range header in bytes (when its status is 200 and If-Range is absent or equals its ETag or Last-Modified), 206 with exactly the requested bytes: one range (after merging overlapping and adjacent ones) with its Content-Range and Content-Length, several as one part each, in order, with their own Content-Range. "
  "Malformed or inverted ranges get 400, a range starting beyond the end 416 with the file's size, and no byte of the file; HEAD gets the same status and headers without a body. "
  "Serving a range leaves the response object unchanged, and a file that became shorter ends the response.",
  ["inputs", "configurations", "fault_sequences"],
  "a table of 42 Range header forms against file sizes below, at and above the chunk size, GET and HEAD, symbolic If-Range, reused responses, shortened files",
  "The arithmetic of range forms, sizes and chunk boundaries multiplies; tests try a few ranges of one small file.",
  ["starlette/responses.py"],
  [("FileResponse.__call__ / _handle_*", "starlette/responses.py"), ("FileResponse._parse_range_header", "starlette/responses.py")],
  "constant propagation over the AST (no execution) with file reads as symbolic intervals, compared with an independent reading of the Range header",
  TRUST + "The Range headers and file sizes are a finite table; file contents, times and boundaries are symbolic.")

P("C36", "Static files answer conditional requests by their validators",
  "StaticFiles answers a conditional request for a file with 304 exactly when If-None-Match lists the file's ETag (weak or not, anywhere in the list) or, in the absence of If-None-Match, If-Modified-Since is a valid date not before Last-Modified; otherwise it answers 200 with the file. "
  "A 304 carries the ETag of the full answer, has no body and no Content-Length or Content-Type, and repeats exactly the cache-control, content-location, date, etag, expires and vary headers.",
  ["inputs"],
  "50 combinations of If-None-Match and If-Modified-Since forms, GET and HEAD",
  "Validator forms (weak, lists, near misses, dates around the modification time) combine; tests use one exact tag and two dates.",
  ["starlette/staticfiles.py", "starlette/responses.py"],
  [("StaticFiles.is_not_modified", "starlette/staticfiles.py"), ("NotModifiedResponse", "starlette/staticfiles.py")],
  "constant propagation over the AST (no execution) against the conditional-request specification",
  TRUST + "The ETag digest and modification time are fixed representatives; If-None-Match: * is not claimed.")

P("C34", "set_cookie and delete_cookie set exactly the requested attributes",
  "response.set_cookie adds one Set-Cookie header (never replacing another header) for the given name and value with exactly the attributes asked for: Max-Age, Expires (a datetime as an HTTP date in GMT), Path, Domain and SameSite when they are not None - 0 included -, Secure and HttpOnly when true; by default Path=/ and SameSite=lax, and a SameSite other than lax, strict or none is refused. "
  "delete_cookie sets the empty cookie with Max-Age 0 and Expires 0 and the given path, domain, secure, httponly and samesite.",
  ["inputs"],
  "all presence combinations of the attributes with symbolic values, every kind of expires and samesite",
  "2^7 combinations of attributes with falsy and None values; tests check a few full headers.",
  ["starlette/responses.py"],
  [("Response.set_cookie / delete_cookie", "starlette/responses.py")],
  AI + "the cookie object as a record of assignments, compared with the arguments on every path",
  TRUST + "http.cookies renders the attributes it is given.")

P("C42", "WSGIMiddleware is a faithful bridge to the WSGI application",
  "The WSGI application is called once, in a worker thread, with the environ of the scope: method, SCRIPT_NAME and PATH_INFO (root path split off, UTF-8 as latin-1), query string, protocol, scheme, server (localhost:80 if unknown), client address if known, CONTENT_TYPE, CONTENT_LENGTH and HTTP_* headers with repeated ones joined by commas, and the complete request body as wsgi.input. "
  "The server gets one start message with the status code and all headers in order (lower-case names), every chunk of the iterable in order with more_body set, and a closing empty body. "
  "An exception of the application, or one passed as exc_info, leaves the middleware, and nothing is sent that the application did not give.",
  ["inputs", "histories"],
  "14 scopes, 6 ways to deliver a body, 7 behaviours of an application x 4 responses",
  "Bodies, headers and failures of WSGI applications combine freely; tests use one small application.",
  ["starlette/middleware/wsgi.py"],
  [("WSGIMiddleware", "starlette/middleware/wsgi.py"), ("WSGIResponder", "starlette/middleware/wsgi.py"), ("build_environ", "starlette/middleware/wsgi.py")],
  AI + "constant propagation with thread, channel and task group models",
  TRUST + "Closing the WSGI iterable (PEP 3333 close()) is not done by this middleware and not claimed.")

P("C43", "Responses declare the body they send and keep the caller's headers",
  "A Response sends its content as one body - bytes as they are, text in its charset, nothing for None, JSON compactly as UTF-8, nothing for a redirect - with a Content-Length equal to its size in bytes, except for streams and the statuses 1xx, 204 and 304, and with its media type as Content-Type, text types getting the charset unless they name one; a FileResponse adds size, date, an ETag that differs for other sizes and dates, Accept-Ranges and, for a file name, Content-Disposition. "
  "Headers given by the caller are sent in lower case with their values, take the place of these, and later changes through response.headers, set_cookie and delete are all in what is sent, never in another response.",
  ["inputs", "configurations"],
  "every response class, symbolic and constant content, 12 statuses, 6 media types, 6 forms of caller headers, changes in different orders",
  "Content kinds, statuses, charsets and header spellings form a product that tests sample at a few points.",
  ["starlette/responses.py", "starlette/datastructures.py"],
  [("Response.init_headers / render / headers", "starlette/responses.py"), ("JSONResponse.render / RedirectResponse", "starlette/responses.py")],
  AI + "dataflow from constructor arguments to the start message, compared as terms with the body message",
  TRUST + "json.dumps and urllib.parse.quote are trusted (their arguments are checked); contents are strings, bytes or opaque JSON values.")

P("C33", "Config precedence and casts; Environ refuses changes to what was read",
  "Config looks a key (with the prefix) up in the environment, then in the file, then takes the default if one is given - None and false values included -, else raises KeyError; the value goes once through the cast, if there is one and the value is not None, and ValueError or TypeError of the cast become ValueError, with bool accepting exactly true, 1, false and 0 in any case. "
  "The file gives the part after the first '=' of each line that is not a comment, without surrounding blanks and quotes, later lines winning. "
  "Once a key was looked up through an Environ, found or not - by item, get, in or Config -, setting or deleting it raises EnvironError and leaves the environment unchanged, and all other keys can be changed.",
  ["inputs", "histories", "configurations"],
  "every combination of environment, file, default, prefix and cast outcome; 13 file line forms; 7 ways of reading against 5 ways of writing, same or other key, present or absent",
  "The product of sources, default kinds, casts and read/write orders is sampled by tests at about a dozen points.",
  ["starlette/config.py"],
  [("Config.get / _read_file / _perform_cast", "starlette/config.py"), ("Environ.__getitem__/__setitem__/__delitem__", "starlette/config.py")],
  AI + "precedence and read-guard typestate over client programs, constant propagation for files and booleans",
  TRUST + "The mixin methods of typing.MutableMapping are modelled from their documentation.")

P("C29", "Registration methods and decorators register exactly what they are given",
  "Registering a route, websocket route, mount, host, event handler, exception handler or middleware through a constructor, a method or a decorator of Starlette or Router has the effect of the documented constructor with the same arguments: the route table holds it once, behind what was there, with its path, endpoint, upper-case methods (GET implies HEAD; functions default to GET, classes and ASGI applications to any method), name (default: the endpoint's), schema flag, also when the application has already served requests, and the caller's list is not changed. "
  "A later exception handler for the same key replaces the earlier one, later middleware goes outside, event handlers run in registration order. "
  "Decorators return the function unchanged, exactly the deprecated interfaces issue a DeprecationWarning, and paths without leading slash, hosts with one, unknown event and middleware types are refused; routes are equal exactly if kind, path or host, endpoint or application, and methods are.",
  ["configurations", "programs"],
  "every registration interface x a table of endpoints (functions, methods, partials, classes, callables) and optional arguments x Starlette and Router x before and after the first request",
  "Tests use a few interfaces with default arguments; the deprecated ones and the optional arguments are mostly marked no cover.",
  ["starlette/applications.py", "starlette/routing.py"], [("Starlette registration methods", "starlette/applications.py"), ("Router registration methods, Route/WebSocketRoute/Mount/Host constructors", "starlette/routing.py")],
  AI + "constant propagation from registration to the answer of a request",
  TRUST + "Whether the warning's text helps is not decided.")

P("C30", "Multi-dicts behave as their list of pairs; immutable ones cannot change",
  "A multi-dict (ImmutableMultiDict, MultiDict, QueryParams, FormData) holds exactly the pairs it was constructed from - pairs, mapping, multi-dict, keywords, query string (blank values kept, latin-1 bytes) -, d[k] and get give the last value of k, getlist all in order, and in, len, iteration, keys, values, items and multi_items agree with that after every sequence of operations. "
  "Setting, deleting, pop, popitem, poplist, clear, setdefault, setlist, append and update change exactly the pairs of their keys (replaced ones move to the end) and give their documented results, and never affect a copy, a returned list or a list given as argument. "
  "The immutable ones and Headers offer no operation that changes them.",
  ["inputs", "histories"],
  "every constructor form, every operation on 5 lists of pairs, every pair of operations and triples after 5 first operations, symbolic values",
  "Each operation must keep a list and a dict in step; tests use single operations on short lists and rarely look at both after two.",
  ["starlette/datastructures.py"],
  [("ImmutableMultiDict / MultiDict", "starlette/datastructures.py"), ("QueryParams.__init__", "starlette/datastructures.py")],
  AI + "comparison of every observation with a reference list of pairs (values as symbols)",
  TRUST + "Keys are representative constants; parse_qsl is trusted; comparing with == is not claimed.")

P("C32", "Headers are a case-insensitive latin-1 multi-dict over the raw list",
  "Headers find names in any case, decode latin-1, give the first value by lookup and get and all of them by getlist, and show the whole list in order by raw, keys, values, items, iteration and len; built from a mapping names are lower-cased, from raw or a scope the list is taken as it is, and equality ignores only the order. "
  "MutableHeaders replace the first occurrence in place and remove the others (set, update, |, |=), append, set defaults only for missing names, delete all occurrences, extend Vary keeping every existing value, and change nothing when a value is not latin-1. "
  "They write through to the raw list or message they were made from, while Headers.raw, mutablecopy and | give independent copies, and | with anything but a mapping raises TypeError.",
  ["inputs", "histories"],
  "5 raw lists with duplicates, non-ASCII and empty values; every constructor form; every operation and pair of operations with names in several cases",
  "Duplicates, case, encoding and order interact in index arithmetic over the list; tests use single operations on lists without duplicates.",
  ["starlette/datastructures.py"],
  [("Headers", "starlette/datastructures.py"), ("MutableHeaders", "starlette/datastructures.py")],
  "constant propagation over the AST (no execution) of client programs against a reference list of byte pairs",
  TRUST + "Names are ASCII; lookups with names that are not latin-1 are not claimed. The header summaries used by the other checks are justified by this one.")

P("C40", "The generated schema lists exactly the documented operations",
  "SchemaGenerator.get_schema returns the base schema whose paths have, for every Route that is included in the schema and is reached by the route list (through mounts and hosts, mount paths prefixed), one entry per full path without convertor names and lower-case method other than HEAD (for a class: the HTTP methods it defines) whose handler's docstring is a YAML mapping after its last ---; nothing else is added. "
  "Generating changes neither the base schema the caller gave nor what later or other generators produce. "
  "OpenAPIResponse renders that schema of request.app's routes.",
  ["configurations", "histories"],
  "8 route tables (functions, methods, endpoint classes, nested mounts, hosts, hidden and undocumented routes) x 3 base schemas, alone, after every other table and after another generator",
  "Tests generate one application's schema once; repeated generation, base schemas with paths and nesting are not sampled.",
  ["starlette/schemas.py"],
  [("SchemaGenerator.get_schema", "starlette/schemas.py"), ("BaseSchemaGenerator.get_endpoints / parse_docstring", "starlette/schemas.py")],
  "constant propagation over the AST (no execution) through client programs, alias analysis of the base schema",
  TRUST + "yaml.safe_load is modelled for the docstrings of the tables.")

P("C20", "Forms are parsed completely, within their limits, and leave no open file",
  "request.form() yields exactly one item per part of a multipart body (or pair of a urlencoded body), in order, with the part's name, text or file name, headers, size and whole content positioned at its start, however the body is cut into messages. "
  "A multipart form with more files, fields or a larger field than max_files, max_fields and max_part_size allow, without boundary or with a part without name fails with MultiPartException - inside an application with a 400 response -, and one within the limits (inclusive) does not. "
  "Every temporary file is closed once parsing fails for any reason (limit, disconnect, malformed body, cancellation), the form is closed or its context is left, and not before.",
  ["inputs", "fault_sequences", "configurations"],
  "8 multipart forms x 3 ways to cut them (whole, every three parser events, single events with two-byte data) x limits at and below the form's numbers, charsets, spool sizes; a disconnect, parser error or cancellation at every message; 3 urlencoded forms",
  "How the body is cut, where it fails and which limit is hit multiply; tests post whole bodies.",
  ["starlette/formparsers.py", "starlette/requests.py", "starlette/datastructures.py", "starlette/_utils.py"],
  [("MultiPartParser / FormParser", "starlette/formparsers.py"), ("Request._get_form", "starlette/requests.py"), ("UploadFile / FormData.close", "starlette/datastructures.py")],
  "constant propagation over the AST (no execution) through client programs with parser-event histories",
  TRUST + "python_multipart is modelled by the callbacks it makes, SpooledTemporaryFile by its contents.")

P("C26", "The request body is read once, completely, however it is read",
  "body() is the concatenation of every chunk up to the first message without more_body, read from the channel once and kept; stream() yields the non-empty chunks in order and one empty chunk at the end - or the kept body -, and json() decodes that body. "
  "Reading after the stream was consumed without being kept raises RuntimeError; a disconnect before the end raises ClientDisconnect and makes is_disconnected() true. "
  "No message that follows the body is taken by reading it.",
  ["histories", "inputs"],
  "10 message histories (chunks, omitted fields, empty chunks, disconnects) x all sequences of up to 3 (thorough: 4) of body, json, stream, form, is_disconnected, close",
  "Orders of reading operations and message shapes multiply; tests use whole bodies and single reads.",
  ["starlette/requests.py"],
  [("Request.stream / body / json / is_disconnected", "starlette/requests.py")],
  "constant propagation over the AST (no execution) through client programs against a reference reader",
  TRUST + "is_disconnected() before the body was read is not claimed.")

P("C27", "The lifespan protocol is followed, whatever fails",
  "A lifespan connection awaits one message, runs the startup code (lifespan context entered with the application, or the on_startup handlers in order, sync or async) once, merges what the lifespan yields into the scope's own state dictionary, sends lifespan.startup.complete, awaits the next message, runs the shutdown code once and in order, and sends lifespan.shutdown.complete. "
  "If anything raises (including cancellation) the context is unwound, lifespan.startup.failed or - once startup was reported complete - lifespan.shutdown.failed is sent with the traceback, and the exception propagates. "
  "A lifespan yielding state to a server without lifespan state support fails with RuntimeError; lifespan connections pass through the application's middleware.",
  ["histories", "fault_sequences", "configurations"],
  "Starlette and Router x 7 kinds of lifespan x a failure or cancellation at every step x 3 yielded states x server with/without state",
  "Every step can fail or be cancelled and every combination has its own required messages; tests cover a few.",
  ["starlette/routing.py", "starlette/applications.py"],
  [("Router.lifespan", "starlette/routing.py"), ("_DefaultLifespan", "starlette/routing.py"), ("_AsyncLiftContextManager", "starlette/routing.py")],
  AI + "constant propagation through client programs with every failure point",
  TRUST + "Generator lifespans with the yield inside a try statement are followed for async generators only.")

P("C24", "Requests leave no trace in the application",
  "Once an application has served its first connections, handling a request or WebSocket changes no object that existed before it: applications, routers, routes, mounts, endpoint classes and every middleware shipped with Starlette keep the same attributes, tables and class and module variables, whether the request succeeds, fails, is rejected or crashes. "
  "So the response to a request, its headers included, is the one a fresh application would send, and no data of one connection can show up in another.",
  ["histories", "inputs"],
  "17 applications of every routing class and middleware x up to 17 kinds of request (success, 404, 405, redirect, handled and unhandled exceptions, preflight, rejected host, sessions, websockets) with other values in every field",
  "Leaks between requests need a specific earlier request; tests use a fresh client and application for nearly every request.",
  ["starlette/applications.py", "starlette/routing.py", "starlette/responses.py", "starlette/middleware/cors.py", "starlette/middleware/sessions.py", "starlette/middleware/gzip.py", "starlette/middleware/exceptions.py"],
  [("CORSMiddleware", "starlette/middleware/cors.py"), ("SessionMiddleware", "starlette/middleware/sessions.py"), ("GZipMiddleware", "starlette/middleware/gzip.py"), ("Router.app", "starlette/routing.py"), ("wrap_app_handling_exceptions", "starlette/_exception_handler.py")],
  AI + "effect analysis by comparing the abstract heap of pre-existing objects before and after each request of a client program",
  TRUST + "StaticFiles and WSGIMiddleware are not among the applications. What a first round of requests builds lazily is not counted.")

P("C31", "A connection is a faithful view of its scope",
  "Request, WebSocket and HTTPConnection give the very app, auth, user, session and path_params objects of their scope (a missing one is refused; path_params is empty), its host and port as client, its headers, query string and the name=value pairs of its Cookie header, and behave as a mapping over the scope compared by identity; a scope of another type is refused. "
  "request.state is scope['state'], created when absent and shared by every connection on the scope; a State object gets, sets and deletes exactly the entries of its dictionary and raises AttributeError for absent ones. "
  "send_push_promise sends one http.response.push message with the path and exactly the accept, accept-encoding, accept-language, cache-control and user-agent headers if the server supports it, else nothing.",
  ["inputs", "histories"],
  "4 connection constructors x every subset of the optional scope entries with symbolic values; 22 cookie strings; all State operation sequences up to length 2 and most of length 3",
  "Subsets of scope entries, orders of state operations and cookie syntax multiply; tests use complete scopes.",
  ["starlette/requests.py", "starlette/datastructures.py", "starlette/websockets.py"],
  [("HTTPConnection", "starlette/requests.py"), ("cookie_parser", "starlette/requests.py"), ("State", "starlette/datastructures.py")],
  AI + "identity of scope values, constant propagation for cookies and state",
  TRUST + "Only the first Cookie header is considered; unquoting is http.cookies'.")

P("C39", "Every module imports alone, on each declared Python, with declared packages",
  "Importing any public module of the package as the first one succeeds on every Python version the project declares (3.9 to 3.13), with only anyio (and typing_extensions below 3.10) installed: no circular import, no name that is missing at import or when a function uses it, no language or library feature newer than the oldest version or removed in the newest outside a version test. "
  "Only starlette.middleware.sessions needs itsdangerous and only starlette.testclient needs httpx to be imported; jinja2, python-multipart and pyyaml are needed by the features that use them, not by importing anything.",
  ["configurations"],
  "every public module as the first import x 5 Python versions x optional packages present or absent; every global name of every function",
  "The tests run one Python version with every optional package, in one import order.",
  ["starlette/"], [("module-level code", "starlette/"), ("version and optional-package guards", "starlette/_utils.py, requests.py, formparsers.py, templating.py, schemas.py, testclient.py")],
  "whole-program import-graph interpretation, scope analysis, and differential type-checking (mypy) per Python version",
  "Trusts: mypy's tables of which version of the standard library has what (calls on values of unknown type are not checked), and the model of module import in sa/checks/c39.py. The presence of attributes of anyio and the optional packages is not checked.")

P("C28", "The test client shows the app what was requested and the test what it sent",
  "For every request made through TestClient the application is called once, on the chosen event loop, with the ASGI scope of that request: path percent-decoded once, raw path without query, query, lowercase header bytes in order with duplicates, server host and port, root_path, client, a fresh copy of the lifespan state; it receives the body once and a disconnect only after its response, violations of the message order raise, and the test gets status, headers and body exactly as sent (no body for HEAD) or the application's exception (a 500 if nothing was started and server exceptions are not raised). "
  "A websocket session exchanges exactly the messages of both sides in order, offers the given subprotocols and headers, and raises WebSocketDisconnect with code and reason on close, WebSocketDenialResponse with status, headers and whole body on denial, and the application's failure when it is left. "
  "Used as a context manager the client runs lifespan startup on entry and shutdown on exit, raises their failures, shares the event loop and gives each request a copy of the state; the request methods hand every argument on to httpx.",
  ["inputs", "histories"],
  "tables of URLs (ports, IPv6, escapes), headers, bodies, application message scripts (including optional fields, wrong orders, failures), session operations and lifespan scripts, each propagated as constants through the client",
  "Every other test relies on the client; a test of the client samples one URL and one script, and masks what the client itself gets wrong.",
  ["starlette/testclient.py"], [("_TestClientTransport.handle_request", "starlette/testclient.py"), ("WebSocketTestSession", "starlette/testclient.py"), ("TestClient request methods, __enter__, lifespan", "starlette/testclient.py")],
  AI + "scripted applications and model classes for httpx, the portal, memory streams and exit stacks",
  TRUST + "Tasks are sequentialised: the application runs until it waits. httpx and anyio are the model classes in sa/checks/c28.py; the effect of httpx's own merging of URLs, cookies and redirects is not decided.")

P("C41", "Status constants, exceptions, value objects and background tasks keep their word",
  "Every HTTP_n_NAME and WS_n_NAME constant of starlette.status is n; HTTPException, WebSocketException and WebSocketDisconnect keep exactly their arguments (missing detail: the standard phrase, missing reason: empty) and show them; Secret never shows its value in its repr; users, AuthCredentials, Address, CommaSeparatedStrings and Middleware hold what they were given, independent of later changes to the list it came in. "
  "A BackgroundTask awaits or runs in a worker thread its function once with its arguments; BackgroundTasks runs all its tasks, also those added while it runs, one after the other in the order they were added, stops at the first that raises and lets that exception out, and never changes the list it was given. "
  "run_until_first_complete starts each function with its own arguments and returns as soon as one is done.",
  ["inputs", "programs", "schedules"],
  "all 76 constants; a table of constructor arguments per class; background task lists of 0-4 tasks of 5 kinds; all orders of up to 4 competing functions of which some never end",
  "These small objects are used everywhere and tested by one example each; aliasing, falsy arguments and tasks that add tasks are not sampled.",
  ["starlette/status.py", "starlette/exceptions.py", "starlette/authentication.py", "starlette/background.py", "starlette/concurrency.py", "starlette/middleware/__init__.py"],
  [("constants", "starlette/status.py"), ("HTTPException / WebSocketException", "starlette/exceptions.py"), ("AuthCredentials, users", "starlette/authentication.py"), ("Secret, CommaSeparatedStrings, Address", "starlette/datastructures.py"), ("BackgroundTask(s)", "starlette/background.py"), ("run_until_first_complete", "starlette/concurrency.py"), ("Middleware", "starlette/middleware/__init__.py")],
  AI + "constant propagation of tables of arguments, tasks sequentialised in every order",
  TRUST + "shlex, http.HTTPStatus and anyio are trusted; cancellation takes effect at once.")

P("C44", "Multipart parsing is independent of how the body is split into chunks",
  "For every multipart or urlencoded body and every way of splitting it into http.request messages, request.form() gives the same fields and file contents as for the body in one message, and the contents are the bytes that were encoded.",
  ["inputs", "schedules"], "every body and every split", "The number of splits is exponential in the length of the body.",
  ["starlette/formparsers.py"], [("MultiPartParser.parse", "starlette/formparsers.py")], "none", "",
  na="The bytes are tokenised by the python_multipart package, which is not part of this repository: its callbacks are an input here. C20 decides statically what starlette does with every sequence and split of these callbacks; whether the automaton emits the same events for every split is a question about another program and about byte values.")

P("C45", "No interleaving of the tasks of a connection deadlocks or corrupts it",
  "In every interleaving of the tasks Starlette starts for a connection (streaming with disconnect listener, BaseHTTPMiddleware, WSGI bridge, test client portal) the connection ends, no task is left behind and messages keep their order.",
  ["schedules"], "every interleaving of tasks and threads at await points", "Tests run one schedule.",
  ["starlette/middleware/base.py", "starlette/responses.py", "starlette/middleware/wsgi.py"], [("_StreamingResponse, call_next", "starlette/middleware/base.py")], "none", "",
  na="Deadlock freedom and ordering under all interleavings of anyio tasks, memory streams and cancel scopes need an exploration of the product of the tasks with the scheduler's semantics - model checking, not static analysis. C01, C25, C42 decide the sequentialised part: every cut of a child at every await, and the order of messages through the channels.")

P("C46", "Every request is handled in time and memory proportional to its size",
  "Parsing paths, headers, cookies, ranges, queries and forms takes time and memory linear in the request, whatever it contains.",
  ["inputs"], "every request", "Worst cases are particular inputs, and a timing test bounds nothing.",
  ["starlette/routing.py", "starlette/responses.py", "starlette/formparsers.py", "starlette/requests.py"], [("compile_path, Range parsing, cookie_parser", "starlette/")], "none", "",
  na="A cost bound depends on the cost of library code outside the repository (re's backtracking on user-supplied route patterns, int(), http.cookies, python_multipart) and on numeric quantities such as sizes, for which no sound static bound is in reach here. The limits the package itself promises (form parts and files) are decided by C20.")
