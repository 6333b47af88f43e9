F = "_exception_handler.py"
M = "middleware/exceptions.py"
BAD = [
    ("exact-type", F, '''    for cls in type(exc).__mro__:
        if cls in exc_handlers:
            return exc_handlers[cls]
    return None''', '''    return exc_handlers.get(type(exc))'''),
    ("isinstance-order", F, '''    for cls in type(exc).__mro__:
        if cls in exc_handlers:
            return exc_handlers[cls]
    return None''', '''    for cls, handler in exc_handlers.items():
        if isinstance(exc, cls):
            return handler
    return None'''),
    ("reversed-mro", F, 'type(exc).__mro__:', 'reversed(type(exc).__mro__):'),
    ("class-first", F, ['''            if isinstance(exc, HTTPException):
                handler = status_handlers.get(exc.status_code)

            if handler is None:
                handler = _lookup_exception_handler(exception_handlers, exc)
'''], ['''            handler = _lookup_exception_handler(exception_handlers, exc)
            if handler is None and isinstance(exc, HTTPException):
                handler = status_handlers.get(exc.status_code)
''']),
    ("swallow", F, '''            if handler is None:
                raise exc
''', '''            if handler is None:
                if response_started:
                    return
                raise exc
'''),
    ("started-after", F, '''            if message["type"] == "http.response.start":
                response_started = True
            await send(message)''', '''            await send(message)
            if message["type"] == "http.response.body":
                response_started = True'''),
    ("no-started", F, '''            if response_started:
                raise RuntimeError("Caught handled exception, but response already started.") from exc
''', ''),
    ("sync-inline", F, 'await run_in_threadpool(handler, conn, exc)', 'handler(conn, exc)'),
    ("base", F, 'except Exception as exc:', 'except BaseException as exc:'),
    ("resp-send", F, 'if response is not None:\n                await response(scope, receive, sender)', 'if response is not None and scope["type"] == "http":\n                await response(scope, receive, sender)'),
    ("overwrite-default", M, '''        if handlers is not None:  # pragma: no branch
            for key, value in handlers.items():
                self.add_exception_handler(key, value)
''', '''        if handlers is not None:  # pragma: no branch
            for key, value in handlers.items():
                self.add_exception_handler(key, value)
        self._exception_handlers[HTTPException] = self.http_exception
'''),
    ("setdefault", M, 'self._exception_handlers[exc_class_or_status_code] = handler', 'self._exception_handlers.setdefault(exc_class_or_status_code, handler)'),
    ("headers-lost", M, 'return PlainTextResponse(exc.detail, status_code=exc.status_code, headers=exc.headers)', 'return PlainTextResponse(exc.detail, status_code=exc.status_code)'),
    ("headers-lost-204", M, 'return Response(status_code=exc.status_code, headers=exc.headers)', 'return Response(status_code=exc.status_code)'),
    ("304", M, '{204, 304}', '{204}'),
    ("ws-code", M, 'await websocket.close(code=exc.code, reason=exc.reason)', 'await websocket.close(reason=exc.reason)'),
    ("from-none", F, 'already started.") from exc', 'already started.") from None'),
    ("twice", F, '            if response is not None:\n', '            if response_started:\n                return\n            if response is not None:\n                await response(scope, receive, sender)\n                return\n            if response is None and scope["type"] == "http":\n                raise exc\n            if response is not None:\n'),
]
GOOD = [
    ("next", F, '''    for cls in type(exc).__mro__:
        if cls in exc_handlers:
            return exc_handlers[cls]
    return None''', '''    return next((exc_handlers[cls] for cls in type(exc).__mro__ if cls in exc_handlers), None)'''),
    ("get-loop", F, '''    for cls in type(exc).__mro__:
        if cls in exc_handlers:
            return exc_handlers[cls]
    return None''', '''    for cls in type(exc).mro():
        handler = exc_handlers.get(cls)
        if handler is not None:
            return handler
    return None'''),
    ("helper", F, ['''            handler = None

            if isinstance(exc, HTTPException):
                handler = status_handlers.get(exc.status_code)

            if handler is None:
                handler = _lookup_exception_handler(exception_handlers, exc)

            if handler is None:
                raise exc
''', '''def wrap_app_handling'''], ['''            handler = _find(exc, exception_handlers, status_handlers)
            if handler is None:
                raise
''', '''def _find(exc, exception_handlers, status_handlers):  # type: ignore
    if isinstance(exc, HTTPException) and exc.status_code in status_handlers:
        return status_handlers[exc.status_code]
    return _lookup_exception_handler(exception_handlers, exc)


def wrap_app_handling''']),
    ("state-obj", F, ['''        response_started = False

        async def sender(message: Message) -> None:
            nonlocal response_started

            if message["type"] == "http.response.start":
                response_started = True
            await send(message)
''', 'if response_started:'], ['''        started: list[bool] = []

        async def sender(message: Message) -> None:
            if message["type"] == "http.response.start":
                started.append(True)
            await send(message)
''', 'if started:']),
    ("get-scope", F, '''    try:
        exception_handlers, status_handlers = conn.scope["starlette.exception_handlers"]
    except KeyError:
        exception_handlers, status_handlers = {}, {}
''', '''    exception_handlers, status_handlers = conn.scope.get("starlette.exception_handlers", ({}, {}))
'''),
    ("async-def-handler", M, '''    def http_exception(self''', '''    async def http_exception(self'''),
    ("in-tuple", M, 'if exc.status_code in {204, 304}:', 'if exc.status_code == 204 or exc.status_code == 304:'),
    ("update", M, ['''        self._exception_handlers: ExceptionHandlers = {
            HTTPException: self.http_exception,
            WebSocketException: self.websocket_exception,
        }
'''], ['''        self._exception_handlers: ExceptionHandlers = {}
        self.add_exception_handler(HTTPException, self.http_exception)
        self.add_exception_handler(WebSocketException, self.websocket_exception)
''']),
]
