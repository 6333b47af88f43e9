M = "middleware/"
BAD = [
    ("cors-drop", M + "cors.py", 'if message["type"] != "http.response.start":\n            await send(message)\n            return', 'if message["type"] == "http.response.body":\n            await send(message)\n            return\n        if message["type"] != "http.response.start":\n            return'),
    ("cors-replace-headers", M + "cors.py", 'message.setdefault("headers", [])\n', 'message["headers"] = []\n'),
    ("sess-replace", M + "sessions.py", 'headers.append("Set-Cookie", header_value)\n                elif', 'headers["Set-Cookie"] = header_value\n                elif'),
    ("sess-twice", M + "sessions.py", '            await send(message)\n\n', '                await send(message)\n            await send(message)\n\n'),
    ("sess-ws", M + "sessions.py", '            await send(message)\n\n', '            if message["type"].startswith("http."):\n                await send(message)\n\n'),
    ("err-body-drop", M + "errors.py", '            await send(message)\n', '            if response_started:\n                await send(message)\n'),
    ("auth-receive", M + "authentication.py", 'scope["auth"], scope["user"] = auth_result\n        await self.app(scope, receive, send)', 'scope["auth"], scope["user"] = auth_result\n        await receive()\n        await self.app(scope, receive, send)'),
    ("status", M + "cors.py", '        origin = request_headers["Origin"]\n', '        origin = request_headers["Origin"]\n        if not origin:\n            message["status"] = 400\n'),
    ("vary-replace", M + "sessions.py", 'headers = MutableHeaders(scope=message)\n                    header_value = "{session_cookie}={data}; path={path}; {max_age}', 'headers = MutableHeaders(scope=message)\n                    del headers["Cache-Control"]\n                    header_value = "{session_cookie}={data}; path={path}; {max_age}'),
]
GOOD = [
    ("newmsg", M + "sessions.py", '            await send(message)\n\n', '            await send({**message})\n\n'),
    ("extract", M + "errors.py", '''            if message["type"] == "http.response.start":
                response_started = True
            await send(message)''', '''            response_started = response_started or message["type"] == "http.response.start"
            await send(message)'''),
]
