R = "routing.py"
E = "endpoints.py"
BAD = [
    ("twice", R, '''            response = await f(request)
            await response(scope, receive, send)
''', '''            response = await f(request)
            await response(scope, receive, send)
            await response(scope, receive, send)
'''),
    ("no-thread", R, 'functools.partial(run_in_threadpool, func)', 'asyncify(func)'),
    ("thread-all", R, 'func if is_async_callable(func) else functools.partial(run_in_threadpool, func)  # type:ignore', 'functools.partial(run_in_threadpool, func)  # type:ignore'),
    ("outer-send", R, '''        async def app(scope: Scope, receive: Receive, send: Send) -> None:
            response = await f(request)
            await response(scope, receive, send)
''', '''        async def app(scope: Scope, receive: Receive, _send: Send) -> None:
            response = await f(request)
            await response(request.scope, request.receive, None)
'''),
    ("no-wrap", R, '''        await wrap_app_handling_exceptions(app, request)(scope, receive, send)

    return app


def websocket''', '''        await app(scope, receive, send)

    return app


def websocket'''),
    ("ws-swap", R, 'WebSocket(scope, receive=receive, send=send)', 'WebSocket(scope, receive=send, send=receive)'),
    ("ws-no-wrap", R, 'await wrap_app_handling_exceptions(app, session)(', 'await app('),
    ("partial-once", R, '''        while isinstance(endpoint_handler, functools.partial):
            endpoint_handler = endpoint_handler.func
        if inspect.isfunction(endpoint_handler) or inspect.ismethod(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.''', '''        if inspect.isfunction(endpoint_handler) or inspect.ismethod(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.'''),
    ("no-method", R, '''        if inspect.isfunction(endpoint_handler) or inspect.ismethod(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.''', '''        if inspect.isfunction(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.'''),
    ("head-always-get", E, 'if request.method == "HEAD" and not hasattr(self, "head") else', 'if request.method == "HEAD" else'),
    ("sync-inline", E, 'response = await run_in_threadpool(handler, request)', 'response = handler(request)'),
    ("allow-all", E, '''            if getattr(self, method.lower(), None) is not None
''', ''),
    ("no-raise", E, '''        if "app" in self.scope:
            raise HTTPException(status_code=405, headers=headers)
''', ''),
    ("404", E, 'raise HTTPException(status_code=405, headers=headers)', 'raise HTTPException(status_code=404, headers=headers)'),
    ("no-allow", E, 'raise HTTPException(status_code=405, headers=headers)', 'raise HTTPException(status_code=405)'),
    ("own-attrs", E, 'if not hasattr(HTTPEndpoint, handler_name) and handler_name not in vars(self):', 'if handler_name:'),
    ("get-fallback", E, 'handler = getattr(self, handler_name, self.method_not_allowed)', 'handler = getattr(self, handler_name, getattr(self, "get", self.method_not_allowed))'),
]
GOOD = [
    ("helper", R, '''            response = await f(request)
            await response(scope, receive, send)
''', '''            await _reply(await f(request), scope, receive, send)
''') if False else ("if-else", R, '''    f: typing.Callable[[Request], typing.Awaitable[Response]] = (
        func if is_async_callable(func) else functools.partial(run_in_threadpool, func)  # type:ignore
    )
''', '''    is_async = is_async_callable(func)

    async def f(request: Request) -> Response:
        if is_async:
            return await func(request)  # type: ignore
        return await run_in_threadpool(func, request)  # type: ignore
'''),
    ("loop-methods", E, '''        self._allowed_methods = [
            method
            for method in ("GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS")
            if getattr(self, method.lower(), None) is not None
        ]
''', '''        allowed = []
        for method in ("GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"):
            if hasattr(self, method.lower()):
                allowed.append(method)
        self._allowed_methods = allowed
'''),
    ("cond-await", E, '''        if is_async:
            response = await handler(request)
        else:
            response = await run_in_threadpool(handler, request)
''', '''        awaitable = handler(request) if is_async else run_in_threadpool(handler, request)
        response = await awaitable
'''),
    ("scope-get", E, 'if "app" in self.scope:', 'if self.scope.get("app") is not None:'),
    ("unwrap-fn", R, ['''def get_name(endpoint''', '''        endpoint_handler = endpoint
        while isinstance(endpoint_handler, functools.partial):
            endpoint_handler = endpoint_handler.func
        if inspect.isfunction(endpoint_handler) or inspect.ismethod(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.'''], ['''def _unwrap(f):
    while isinstance(f, functools.partial):
        f = f.func
    return f


def get_name(endpoint''', '''        endpoint_handler = _unwrap(endpoint)
        if inspect.isroutine(endpoint_handler):
            # Endpoint is function or method. Treat it as `func(request) -> response`.''']),
]
