CO, SE, GZ, EX, AU, RO, AP, EP, RE, RS, HE, BA, TH, HS, DS, ER, WS = ("middleware/cors.py", "middleware/sessions.py", "middleware/gzip.py", "middleware/exceptions.py", "middleware/authentication.py", "routing.py", "applications.py",
    "endpoints.py", "requests.py", "responses.py", "_exception_handler.py", "middleware/base.py", "middleware/trustedhost.py", "middleware/httpsredirect.py", "datastructures.py", "middleware/errors.py", "websockets.py")
BAD = [
    ("cors-preflight-shared", CO, "headers = dict(self.preflight_headers)", "headers = self.preflight_headers"),
    ("cors-simple-shared", CO, "        origin = request_headers[\"Origin\"]\n", "        origin = request_headers[\"Origin\"]\n        self.simple_headers[\"Vary\"] = \"Origin\"\n"),
    ("cors-headers-on-self", CO, "        await self.simple_response(scope, receive, send, request_headers=headers)", "        self.request_headers = headers\n        await self.simple_response(scope, receive, send, request_headers=headers)"),
    ("cors-learns-origin", CO, "if self.allow_origin_regex is not None and self.allow_origin_regex.fullmatch(origin):\n            return True", "if self.allow_origin_regex is not None and self.allow_origin_regex.fullmatch(origin):\n            self.allow_origins = [*self.allow_origins, origin]\n            return True"),
    ("cors-allow-headers-grow", CO, "        elif requested_headers is not None:\n", "        elif requested_headers is not None:\n            self.allow_headers += [h.lower().strip() for h in requested_headers.split(\",\")]\n"),
    ("session-shared-empty", SE, ["class SessionMiddleware:\n", "            except BadSignature:\n                scope[\"session\"] = {}\n        else:\n            scope[\"session\"] = {}\n"],
     ["EMPTY: dict = {}\n\n\nclass SessionMiddleware:\n", "            except BadSignature:\n                scope[\"session\"] = EMPTY\n        else:\n            scope[\"session\"] = EMPTY\n"]),
    ("session-flag-on-self", SE, ["initial_session_was_empty = True\n", "initial_session_was_empty = False\n", "elif not initial_session_was_empty:"], ["self.fresh = True\n", "self.fresh = False\n", "elif not self.fresh:"]),
    ("session-flags-grow", SE, "        async def send_wrapper(message", "        if scope[\"type\"] == \"websocket\":\n            self.security_flags += \"; secure\"\n\n        async def send_wrapper(message"),
    ("gzip-responder-shared", GZ, ["        self.compresslevel = compresslevel\n\n    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:\n        if scope[\"type\"] != \"http\"", "            responder = IdentityResponder(self.app, self.minimum_size)\n"],
     ["        self.compresslevel = compresslevel\n        self.identity = IdentityResponder(app, minimum_size)\n\n    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:\n        if scope[\"type\"] != \"http\"", "            responder = self.identity\n"]),
    ("gzip-class-message", GZ, "            self.initial_message = message\n", "            IdentityResponder.initial_message = self.initial_message = message\n"),
    ("exceptions-last", EX, "            conn = Request(scope, receive, send)\n", "            conn = Request(scope, receive, send)\n            self.conn = conn\n"),
    ("exc-pop", HE, "handler = status_handlers.get(exc.status_code)", "handler = status_handlers.pop(exc.status_code, None)"),
("auth-shared-anonymous", AU, ["            auth_result = AuthCredentials(), UnauthenticatedUser()\n", "        scope[\"auth\"], scope[\"user\"] = auth_result\n"], ["            auth_result = AuthCredentials(), UnauthenticatedUser()\n", "        self.last = auth_result\n        scope[\"auth\"], scope[\"user\"] = auth_result\n"]),
    ("auth-remember", AU, "        if auth_result is None:\n            auth_result = AuthCredentials(), UnauthenticatedUser()\n", "        if auth_result is None:\n            auth_result = getattr(self, \"seen\", (AuthCredentials(), UnauthenticatedUser()))\n        self.seen = auth_result\n"),
    ("router-scope", RO, "        partial = None\n", "        partial = None\n        self.scope = scope\n"),
    ("router-mru", RO, "                if match == Match.FULL:\n                scope.update(child_scope)\n", ""),
    ("mount-root", RO, "    async def handle(self, scope: Scope, receive: Receive, send: Send) -> None:\n        await self.app(scope, receive, send)\n\n    def __eq__(self, other: typing.Any) -> bool:\n        return isinstance(other, Mount)", "    async def handle(self, scope: Scope, receive: Receive, send: Send) -> None:\n        self.seen = scope[\"root_path\"]\n        await self.app(scope, receive, send)\n\n    def __eq__(self, other: typing.Any) -> bool:\n        return isinstance(other, Mount)"),
    ("app-middleware-grow", AP, "            self.middleware_stack = self.build_middleware_stack()\n", "            self.middleware_stack = self.build_middleware_stack()\n        self.user_middleware.append(self.user_middleware[-1]) if self.user_middleware else None\n"),
    ("background-shared", BA, "        self.dispatch_func = self.dispatch if dispatch is None else dispatch\n\n", "        self.dispatch_func = self.dispatch if dispatch is None else dispatch\n        self.seen = []\n\n"),
    ("base-request-self", BA, "        request = _CachedRequest(scope, receive)\n", "        self.request = request = _CachedRequest(scope, receive)\n"),
    ("trusted-learn", TH, "            is_valid_host", "            is_valid_host"),
    ("response-class-headers", RS, "        self.raw_headers = raw_headers\n", "        self.raw_headers = raw_headers\n        Response.last_headers = raw_headers\n"),
    ("state-shared", RE, 'self.scope.setdefault("state", {})', 'self.scope.setdefault("state", _STATE)'),
    ("errors-last", ER, "        except Exception as exc:\n", "        except Exception as exc:\n            self.last_error = exc\n"),
    ("websocket-class-state", WS, "            self.client_state = WebSocketState.CONNECTED\n", "            self.client_state = WebSocketState.CONNECTED\n            WebSocket.connected = getattr(WebSocket, \"connected\", 0) + 1\n"),
    ("redirect-self", HS, "            url = URL(scope=scope)\n", "            self.url = url = URL(scope=scope)\n"),
    ("params-shared", RO, ["        self.include_in_schema = include_in_schema\n\n        endpoint_handler = endpoint", 'path_params = dict(scope.get("path_params", {}))\n                path_params.update(matched_params)\n                child_scope = {"endpoint": self.endpoint, "path_params": path_params}\n                if self.methods'],
     ["        self.include_in_schema = include_in_schema\n        self.params: dict = {}\n\n        endpoint_handler = endpoint", 'path_params = self.params\n                path_params.update(scope.get("path_params", {}))\n                path_params.update(matched_params)\n                child_scope = {"endpoint": self.endpoint, "path_params": path_params}\n                if self.methods']),
    ("global-last", RS, ["        self.raw_headers = raw_headers\n", "class Response:\n"], ["        global LAST\n        LAST = raw_headers\n        self.raw_headers = raw_headers\n", "LAST: typing.Any = None\n\n\nclass Response:\n"]),
]
BAD = [b for b in BAD if b[0] not in ("router-mru", "background-shared", "trusted-learn", "state-shared")] + [
    ("state-shared", RE, ['self.scope.setdefault("state", {})', "SERVER_PUSH_HEADERS_TO_COPY = {"], ['self.scope.setdefault("state", _STATE)', "_STATE: dict = {}\nSERVER_PUSH_HEADERS_TO_COPY = {"]),
]
GOOD = [
    ("cors-copy", CO, "headers = dict(self.preflight_headers)", "headers = {**self.preflight_headers}"),
    ("lazy-flag", TH, "        self.app = app\n", "        self.app = app\n        self.ready = False\n"),
    ("exc-cached-by-class", HE, "        if cls in exc_handlers:\n            return exc_handlers[cls]\n", "        if cls in exc_handlers:\n            exc_handlers[type(exc)] = exc_handlers[cls]\n            return exc_handlers[cls]\n"),
    ("session-one-empty", SE, "            except BadSignature:\n                scope[\"session\"] = {}\n        else:\n            scope[\"session\"] = {}\n", "            except BadSignature:\n                pass\n        if \"session\" not in scope:\n            scope[\"session\"] = dict()\n"),
    ("gzip-class-default", GZ, "        self.started = False\n        self.content_encoding_set = False\n", "        self.content_encoding_set = False\n        self.started = False\n"),
    ("auth-shared-anonymous", AU, ["            on_error if on_error is not None else self.default_on_error\n        )\n", "            auth_result = AuthCredentials(), UnauthenticatedUser()\n"], ["            on_error if on_error is not None else self.default_on_error\n        )\n        self.anonymous = AuthCredentials(), UnauthenticatedUser()\n", "            auth_result = self.anonymous\n"]),
    ("stack-first", AP, "        if self.middleware_stack is None:\n            self.middleware_stack = self.build_middleware_stack()\n        await self.middleware_stack(scope, receive, send)", "        stack = self.middleware_stack\n        if stack is None:\n            stack = self.middleware_stack = self.build_middleware_stack()\n        await stack(scope, receive, send)"),
]
