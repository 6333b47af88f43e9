R, A = "routing.py", "applications.py"
BODY = open("/repo/starlette/routing.py").read()
BODY = BODY[BODY.index("        started = False\n        app: typing.Any"):BODY.index("    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:\n        \"\"\"\n        The main entry")]
BAD = [
    ("no-receive-first", R, "        await receive()\n        try:\n            async with", "        try:\n            async with"),
    ("started-early", R, '                await send({"type": "lifespan.startup.complete"})\n                started = True\n', '                started = True\n                await send({"type": "lifespan.startup.complete"})\n'),
    ("started-before-state", R, "as maybe_state:\n", "as maybe_state:\n                started = True\n"),
    ("swallow", R, '"message": exc_text})\n            raise\n', '"message": exc_text})\n'),
    ("exception-only", R, "        except BaseException:\n            exc_text", "        except Exception:\n            exc_text"),
    ("complete-inside", R, '                await receive()\n        except BaseException', '                await receive()\n                await send({"type": "lifespan.shutdown.complete"})\n        except BaseException'),
    ("complete-finally", R, '            raise\n        else:\n            await send({"type": "lifespan.shutdown.complete"})', '            raise\n        finally:\n            await send({"type": "lifespan.shutdown.complete"})'),
    ("state-replaced", R, 'scope["state"].update(maybe_state)', 'scope["state"] = {**scope["state"], **maybe_state}'),
    ("state-late", R, [
        '                if maybe_state is not None:\n                    if "state" not in scope:\n                        raise RuntimeError(\'The server does not support "state" in the lifespan scope.\')\n                    scope["state"].update(maybe_state)\n', "                started = True\n"],
        ["", '                started = True\n                if maybe_state is not None:\n                    if "state" not in scope:\n                        raise RuntimeError(\'The server does not support "state" in the lifespan scope.\')\n                    scope["state"].update(maybe_state)\n']),
    ("state-truthy", R, "if maybe_state is not None:", "if maybe_state:"),
    ("state-silent", R, 'raise RuntimeError(\'The server does not support "state" in the lifespan scope.\')', "scope[\"state\"] = {}"),
    ("state-keep-old", R, 'scope["state"].update(maybe_state)', 'for k, x in maybe_state.items():\n                        scope["state"].setdefault(k, x)'),
    ("app-self", R, 'app: typing.Any = scope.get("app")', "app: typing.Any = self"),
    ("no-receive-second", R, "                started = True\n                await receive()\n", "                started = True\n"),
    ("sync-await", R, "        for handler in self.on_startup:\n            if is_async_callable(handler):\n                await handler()\n            else:\n                handler()", "        for handler in self.on_startup:\n            if is_async_callable(handler):\n                await handler()"),
    ("shutdown-not-awaited", R, "        for handler in self.on_shutdown:\n            if is_async_callable(handler):\n                await handler()\n            else:\n                handler()", "        for handler in self.on_shutdown:\n            handler()"),
    ("startup-reversed", R, "for handler in self.on_startup:", "for handler in reversed(self.on_startup):"),
    ("shutdown-set-once", R, "for handler in self.on_shutdown:", "for handler in self.on_shutdown[:1]:"),
    ("aexit-skip", R, "    async def __aexit__(self, *exc_info: object) -> None:\n        await self._router.shutdown()", "    async def __aexit__(self, *exc_info: object) -> None:\n        if exc_info[0] is None:\n            await self._router.shutdown()"),
    ("aexit-swallow", R, "    async def __aexit__(self, *exc_info: object) -> None:\n        await self._router.shutdown()", "    async def __aexit__(self, *exc_info: object) -> bool:\n        await self._router.shutdown()\n        return True"),
    ("event-insert", R, "self.on_startup.append(func)", "self.on_startup.insert(0, func)"),
    ("event-type", R, 'if event_type == "startup":', 'if event_type != "startup":'),
    ("lift-no-exit", R, "return self._cm.__exit__(exc_type, exc_value, traceback)", "return None"),
    ("lift-value", R, "return self._cm.__enter__()", "self._cm.__enter__()"),
    ("lifespan-bypass-middleware", A, '        scope["app"] = self\n', '        scope["app"] = self\n        if scope["type"] == "lifespan":\n            await self.router(scope, receive, send)\n            return\n'),
    ("app-not-set", A, '        scope["app"] = self\n', '        if scope["type"] != "lifespan":\n            scope["app"] = self\n'),
    ("failed-type", R, 'if started:\n                await send({"type": "lifespan.shutdown.failed"', 'if not started:\n                await send({"type": "lifespan.shutdown.failed"'),
    ("with-first", R, "        await receive()\n        try:\n            async with self.lifespan_context(app) as maybe_state:\n", "        try:\n            async with self.lifespan_context(app) as maybe_state:\n                await receive()\n"),
    ("handlers-default-shared", R, "self.on_shutdown = [] if on_shutdown is None else list(on_shutdown)", "self.on_shutdown = []"),
]
HELPER = '''        started = False
        await receive()
        phase = "startup"
        manager = self.lifespan_context(scope.get("app"))
        try:
            async with manager as state:
                self._publish(scope, state)
                complete = {"type": f"lifespan.{phase}.complete"}
                await send(complete)
                phase = "shutdown"
                await receive()
        except BaseException:
            await send({"type": f"lifespan.{phase}.failed", "message": traceback.format_exc()})
            raise
        await send({"type": "lifespan.shutdown.complete"})

    def _publish(self, scope: Scope, state: typing.Any) -> None:
        if state is None:
            return
        try:
            shared = scope["state"]
        except KeyError:
            raise RuntimeError('The server does not support "state" in the lifespan scope.')
        for key, value in state.items():
            shared[key] = value

'''
GOOD = [
    ("helper", R, BODY, HELPER),
    ("run-handlers", R, ["        for handler in self.on_startup:\n            if is_async_callable(handler):\n                await handler()\n            else:\n                handler()",
        "        for handler in self.on_shutdown:\n            if is_async_callable(handler):\n                await handler()\n            else:\n                handler()"],
        ["        await self._run(self.on_startup)", "        await self._run(self.on_shutdown)\n\n    @staticmethod\n    async def _run(handlers: typing.Sequence[typing.Callable[[], typing.Any]]) -> None:\n        for handler in handlers:\n            result = handler()\n            if is_async_callable(handler):\n                await result"]),
    ("flag-order", R, "                await send({\"type\": \"lifespan.startup.complete\"})\n                started = True\n                await receive()\n", "                await send({\"type\": \"lifespan.startup.complete\"})\n                started = bool(1)\n                await receive()\n"),
    ("default-asynccm", R, ["self.lifespan_context: Lifespan[typing.Any] = _DefaultLifespan(self)"], ["self.lifespan_context: Lifespan[typing.Any] = self._default_lifespan"
        ]) if False else ("context-var", R, "            async with self.lifespan_context(app) as maybe_state:\n", "            context = self.lifespan_context(app)\n            async with context as maybe_state:\n"),
    ("else-dropped", R, '        else:\n            await send({"type": "lifespan.shutdown.complete"})', '        await send({"type": "lifespan.shutdown.complete"})'),
]
