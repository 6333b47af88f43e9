M = "middleware/"
BAD = [
    ("cors-lifespan", M + "cors.py", 'if scope["type"] != "http":  # pragma: no cover\n            await self.app(scope, receive, send)\n            return', 'if scope["type"] == "websocket":\n            await self.app(scope, receive, send)\n            return\n        scope.setdefault("x", 1)'),
    ("sess-lifespan", M + "sessions.py", 'if scope["type"] not in ("http", "websocket"):', 'if scope["type"] == "lifespan":'),
    ("auth-copy", M + "authentication.py", 'if scope["type"] not in ["http", "websocket"]:\n            await self.app(scope, receive, send)', 'if scope["type"] not in ["http", "websocket"]:\n            await self.app(dict(scope), receive, send)'),
    ("base-ws", M + "base.py", 'if scope["type"] != "http":\n            await', 'if scope["type"] not in ("http", "websocket"):\n            await'),
    ("errors-ws", M + "errors.py", 'if scope["type"] != "http":', 'if scope["type"] == "lifespan":'),
    ("trusted-wsdrop", M + "trustedhost.py", 'await self.app(scope, receive, send)\n            return', 'if scope["type"] in ("http", "websocket", "lifespan"):\n                await self.app(scope, receive, send)\n            return'),
    ("exc-scope", M + "exceptions.py", '''        if scope["type"] not in ("http", "websocket"):
            await self.app(scope, receive, send)
            return

        scope["starlette.exception_handlers"] = (
            self._exception_handlers,
            self._status_handlers,
        )
''', '''        scope["starlette.exception_handlers"] = (
            self._exception_handlers,
            self._status_handlers,
        )
        if scope["type"] not in ("http", "websocket"):
            await self.app(scope, receive, send)
            return
'''),
    ("gzip-swallow", M + "gzip.py", 'await self.app(scope, receive, send)\n            return', 'try:\n                await self.app(scope, receive, send)\n            except Exception:\n                pass\n            return'),
    ("https-scheme", M + "httpsredirect.py", 'scope["type"] in ("http", "websocket") and', 'scope.get("type") != "lifespan" and'),
]
GOOD = [
    ("invert", M + "gzip.py", '''        if scope["type"] != "http":  # pragma: no cover
            await self.app(scope, receive, send)
            return

        headers = Headers(scope=scope)
        responder: ASGIApp
        if "gzip" in headers.get("Accept-Encoding", ""):
            responder = GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)
        else:
            responder = IdentityResponder(self.app, self.minimum_size)

        await responder(scope, receive, send)''', '''        target: ASGIApp = self.app
        if scope.get("type") == "http":
            target = self._pick(scope)
        await target(scope, receive, send)

    def _pick(self, scope):
        headers = Headers(scope=scope)
        if "gzip" in headers.get("Accept-Encoding", ""):
            return GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)
        return IdentityResponder(self.app, self.minimum_size)'''),
    ("constset", M + "sessions.py", 'if scope["type"] not in ("http", "websocket"):', 'if not {"http", "websocket"}.issuperset({scope["type"]}) if False else scope["type"] not in {"http", "websocket"}:'),
]
