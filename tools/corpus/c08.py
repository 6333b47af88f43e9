F = "applications.py"
R = "routing.py"
MW = "middleware/__init__.py"
STACK = """        middleware = (
            [Middleware(ServerErrorMiddleware, handler=error_handler, debug=debug)]
            + self.user_middleware
            + [Middleware(ExceptionMiddleware, handlers=exception_handlers, debug=debug)]
        )

        app = self.router
        for cls, args, kwargs in reversed(middleware):
            app = cls(app, *args, **kwargs)
        return app
"""
CALL = """        if self.middleware_stack is None:
            self.middleware_stack = self.build_middleware_stack()
        await self.middleware_stack(scope, receive, send)
"""
ADD = """        if self.middleware_stack is not None:  # pragma: no cover
            raise RuntimeError("Cannot add middleware after an application has started")
        self.user_middleware.insert(0, Middleware(middleware_class, *args, **kwargs))
"""
ROUTEMW = """            for cls, args, kwargs in reversed(middleware):
                self.app = cls(self.app, *args, **kwargs)
"""
RMW = """        if middleware:
            for cls, args, kwargs in reversed(middleware):
                self.middleware_stack = cls(self.middleware_stack, *args, **kwargs)
"""
HND = """            if key in (500, Exception):
                error_handler = value
            else:
                exception_handlers[key] = value
"""
BAD = [
    ("append", F, ADD, ADD.replace("insert(0, Middleware(middleware_class, *args, **kwargs))", "append(Middleware(middleware_class, *args, **kwargs))")),
    ("no-refuse", F, ADD, ADD.replace('        if self.middleware_stack is not None:  # pragma: no cover\n            raise RuntimeError("Cannot add middleware after an application has started")\n', '')),
    ("rebuild", F, ADD, ADD.replace('            raise RuntimeError("Cannot add middleware after an application has started")\n', '            self.middleware_stack = None\n')),
    ("drop-args", F, ADD, ADD.replace("Middleware(middleware_class, *args, **kwargs)", "Middleware(middleware_class, *args)")),
    ("each-time", F, CALL, "        self.middleware_stack = self.build_middleware_stack()\n        await self.middleware_stack(scope, receive, send)\n"),
    ("never-kept", F, CALL, "        stack = self.middleware_stack or self.build_middleware_stack()\n        await stack(scope, receive, send)\n"),
    ("forward", F, STACK, STACK.replace("reversed(middleware)", "middleware")),
    ("user-reversed", F, STACK, STACK.replace("+ self.user_middleware", "+ self.user_middleware[::-1]")),
    ("exc-outside", F, STACK, """        middleware = (
            [Middleware(ServerErrorMiddleware, handler=error_handler, debug=debug), Middleware(ExceptionMiddleware, handlers=exception_handlers, debug=debug)]
            + self.user_middleware
        )

        app = self.router
        for cls, args, kwargs in reversed(middleware):
            app = cls(app, *args, **kwargs)
        return app
"""),
    ("server-inside", F, STACK, """        middleware = (
            self.user_middleware
            + [Middleware(ServerErrorMiddleware, handler=error_handler, debug=debug)]
            + [Middleware(ExceptionMiddleware, handlers=exception_handlers, debug=debug)]
        )

        app = self.router
        for cls, args, kwargs in reversed(middleware):
            app = cls(app, *args, **kwargs)
        return app
"""),
    ("debug-lost", F, STACK, STACK.replace("handler=error_handler, debug=debug", "handler=error_handler")),
    ("alias", F, "self.user_middleware = [] if middleware is None else list(middleware)", "self.user_middleware = [] if middleware is None else middleware"),
    ("alias-h", F, "self.exception_handlers = {} if exception_handlers is None else dict(exception_handlers)", "self.exception_handlers = {} if exception_handlers is None else exception_handlers"),
    ("only-500", F, HND, HND.replace("key in (500, Exception)", "key == 500")),
    ("only-exc", F, HND, HND.replace("key in (500, Exception)", "key is Exception")),
    ("both", F, HND, HND.replace("            else:\n                exception", "            if True:\n                exception")),
    ("app-set", F, '        scope["app"] = self\n', '        scope.setdefault("root_path", "")\n'),
    ("app-after", F, '        scope["app"] = self\n' + CALL, CALL.replace("self.middleware_stack is None:\n", "self.middleware_stack is None:\n            scope[\"app\"] = self\n")),
    ("http-only", F, CALL, CALL + "", ) if False else ("lifespan-direct", F, CALL, '        if scope["type"] == "lifespan":\n            await self.router(scope, receive, send)\n            return\n' + CALL),
    ("route-forward", R, ["        if middleware is not None:\n            for cls, args, kwargs in reversed(middleware):\n                self.app = cls(self.app, *args, **kwargs)\n\n        if methods"], ["        if middleware is not None:\n            for cls, args, kwargs in middleware:\n                self.app = cls(self.app, *args, **kwargs)\n\n        if methods"]),
    ("router-forward", R, RMW, RMW.replace("reversed(middleware)", "middleware")),
    ("router-one", R, RMW, RMW.replace("cls(self.middleware_stack,", "cls(self.app,")),
    ("router-kwargs", R, RMW, RMW.replace(", *args, **kwargs)", ", **kwargs)")),
    ("http-guard", R, "        await self.middleware_stack(scope, receive, send)\n", '        await (self.middleware_stack if scope["type"] != "websocket" else self.app)(scope, receive, send)\n'),
    ("mw-args", MW, "as_tuple = (self.cls, self.args, self.kwargs)", "as_tuple = (self.cls, self.args, {k: v for k, v in self.kwargs.items() if v})"),
    ("mw-args2", MW, "as_tuple = (self.cls, self.args, self.kwargs)", "as_tuple = (self.cls, self.args[:0], self.kwargs)"),
]
GOOD = [
    ("loop", F, STACK, """        app: typing.Any = ExceptionMiddleware(self.router, handlers=exception_handlers, debug=debug)
        for entry in self.user_middleware[::-1]:
            app = entry.cls(app, *entry.args, **entry.kwargs)
        return ServerErrorMiddleware(app, handler=error_handler, debug=debug)
"""),
    ("stack-list", F, STACK, """        middleware = list(self.user_middleware)
        middleware.insert(0, Middleware(ServerErrorMiddleware, handler=error_handler, debug=debug))
        middleware.append(Middleware(ExceptionMiddleware, handlers=exception_handlers, debug=debug))
        app = self.router
        while middleware:
            cls, args, kwargs = middleware.pop()
            app = cls(app, *args, **kwargs)
        return app
"""),
    ("handlers", F, HND, """            if key == 500 or key is Exception:
                error_handler = value
                continue
            exception_handlers[key] = value
"""),
    ("add", F, ADD, """        if self.middleware_stack is None:
            self.user_middleware = [Middleware(middleware_class, *args, **kwargs), *self.user_middleware]
        else:
            raise RuntimeError("Cannot add middleware after an application has started")
"""),
    ("call", F, CALL, """        stack = self.middleware_stack
        if stack is None:
            stack = self.middleware_stack = self.build_middleware_stack()
        await stack(scope, receive, send)
"""),
    ("helper", R, RMW, """        for entry in list(middleware or [])[::-1]:
            self.middleware_stack = self._wrap(self.middleware_stack, entry)

    def _wrap(self, app: ASGIApp, entry: Middleware) -> ASGIApp:
        cls, args, kwargs = entry
        return cls(app, *args, **kwargs)
"""),
    ("iter", MW, "        as_tuple = (self.cls, self.args, self.kwargs)\n        return iter(as_tuple)\n", "        yield self.cls\n        yield self.args\n        yield self.kwargs\n"),
    ("copy", F, "self.user_middleware = [] if middleware is None else list(middleware)", "self.user_middleware = [*(middleware or ())]"),
]
