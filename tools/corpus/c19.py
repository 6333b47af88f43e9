F = "middleware/authentication.py"
BAD = [
    ("ws-skip", F, 'not in ["http", "websocket"]', 'not in ["http"]'),
    ("swap", F, 'scope["auth"], scope["user"] = auth_result', 'scope["user"], scope["auth"] = auth_result'),
    ("noreturn", F, "                await response(scope, receive, send)\n            return", "                await response(scope, receive, send)"),
    ("catchall", F, "except AuthenticationError as exc", "except Exception as exc"),
    ("ws-response", F, 'if scope["type"] == "websocket":\n                await send({"type": "websocket.close", "code": 1000})\n            else:\n                await response', 'if True:\n                await response'),
    ("app-in-try", F, ["            auth_result = await self.backend.authenticate(conn)\n", "        if auth_result is None:\n            auth_result = AuthCredentials(), UnauthenticatedUser()\n        scope[\"auth\"], scope[\"user\"] = auth_result\n        await self.app(scope, receive, send)\n"],
     ["            auth_result = await self.backend.authenticate(conn)\n            if auth_result is None:\n                auth_result = AuthCredentials(), UnauthenticatedUser()\n            scope[\"auth\"], scope[\"user\"] = auth_result\n            await self.app(scope, receive, send)\n", ""]),
    ("keepuser", F, 'scope["auth"], scope["user"] = auth_result', 'scope["auth"] = auth_result[0]\n        scope.setdefault("user", auth_result[1])'),
    ("status", F, "status_code=400", "status_code=401"),
    ("anon-auth", F, "AuthCredentials(), UnauthenticatedUser()", 'AuthCredentials(["authenticated"]), UnauthenticatedUser()'),
    ("cached", F, "            auth_result = await self.backend.authenticate(conn)\n", '            auth_result = None if "user" in scope else await self.backend.authenticate(conn)\n'),
    ("ignore-onerror", F, "on_error if on_error is not None else self.default_on_error", "self.default_on_error"),
]
GOOD = [
    ("ifexp", F, 'if auth_result is None:\n            auth_result = AuthCredentials(), UnauthenticatedUser()\n        scope["auth"], scope["user"] = auth_result', 'creds, user = auth_result if auth_result is not None else (AuthCredentials(), UnauthenticatedUser())\n        scope["auth"] = creds\n        scope["user"] = user'),
    ("flip", F, 'if scope["type"] == "websocket":\n                await send({"type": "websocket.close", "code": 1000})\n            else:\n                await response(scope, receive, send)', 'if scope["type"] != "websocket":\n                await response(scope, receive, send)\n            else:\n                await send({"type": "websocket.close", "code": 1000})'),
    ("elsebranch", F, "        if auth_result is None:\n            auth_result = AuthCredentials(), UnauthenticatedUser()\n        scope[\"auth\"], scope[\"user\"] = auth_result\n        await self.app(scope, receive, send)\n",
     "        else:\n            if auth_result is None:\n                auth_result = AuthCredentials(), UnauthenticatedUser()\n            scope.update(auth=auth_result[0], user=auth_result[1])\n        await self.app(scope, receive, send)\n"),
]
