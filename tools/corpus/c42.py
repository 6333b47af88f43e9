W = "middleware/wsgi.py"
BAD = [
    ("body-last", W, "            body += message.get(\"body\", b\"\")", "            body = message.get(\"body\", b\"\")"),
    ("body-first", W, "        while more_body:\n            message = await receive()\n            body += message.get(\"body\", b\"\")\n            more_body = message.get(\"more_body\", False)", "        message = await receive()\n        body = message.get(\"body\", b\"\")"),
    ("body-stop-empty", W, '            more_body = message.get("more_body", False)', '            more_body = message.get("more_body", False) and bool(message.get("body"))'),
    ("body-key", W, 'message.get("body", b"")', 'message["body"]'),
    ("script-utf8", W, 'script_name = scope.get("root_path", "").encode("utf8").decode("latin1")', 'script_name = scope.get("root_path", "")'),
    ("path-keeps-root", W, "            path_info = path_info[len(script_name) :]\n" if False else "        path_info = path_info[len(script_name) :]", "        path_info = path_info"),
    ("path-replace", W, "path_info[len(script_name) :]", "path_info.lstrip(script_name)"),
    ("path-always-cut", W, "    if path_info.startswith(script_name):\n        path_info = path_info[len(script_name) :]", "    path_info = path_info[len(script_name) :]"),
    ("scheme", W, 'scope.get("scheme", "http")', '"http"'),
    ("server-none", W, 'server = scope.get("server") or ("localhost", 80)', 'server = scope.get("server", ("localhost", 80))'),
    ("remote-port", W, 'scope["client"][0]', 'str(scope["client"][1])'),
    ("client-none", W, '    if scope.get("client"):', '    if "client" in scope:'),
    ("repeat-last", W, 'value = environ[corrected_name] + "," + value', "pass"),
    ("repeat-order", W, 'environ[corrected_name] + "," + value', 'value + "," + environ[corrected_name]'),
    ("dash", W, '.replace("-", "_")', '.replace("-", "_", 1)'),
    ("no-upper", W, 'f"HTTP_{name}".upper()', 'f"HTTP_{name}"'),
    ("prefix-match", W, 'elif name == "content-type":', 'elif name.startswith("content-type"):'),
    ("length-http", W, '        if name == "content-length":\n            corrected_name = "CONTENT_LENGTH"\n        elif', '        if'),
    ("value-utf8", W, 'value = value.decode("latin1")', 'value = value.decode("utf8", "replace")'),
    ("sender-unstarted", W, "            task_group.start_soon(self.sender, send)\n", ""),
    ("stream-not-closed", W, "            async with self.stream_send:\n                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)", "            await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)"),
    ("exc-info-lost", W, "        self.exc_info = exc_info\n        if not", "        if not"),
    ("exc-info-raise-now", W, "        if self.exc_info is not None:\n            raise", "        if self.exc_info is not None and not self.response_started:\n            raise"),
    ("start-twice", W, "            self.response_started = True\n            status_code_string", "            status_code_string"),
    ("headers-case", W, '(name.strip().encode("ascii").lower(), ', '(name.strip().encode("ascii"), '),
    ("headers-dict", W, "for name, value in response_headers\n", "for name, value in dict(response_headers).items()\n"),
    ("value-strip", W, 'value.strip().encode("ascii"))', 'value.encode("ascii"))'),
    ("more-body", W, '"body": chunk, "more_body": True}', '"body": chunk, "more_body": bool(chunk)}'),
    ("no-final", W, '        anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})', "        pass"),
    ("final-more", W, '{"type": "http.response.body", "body": b""})', '{"type": "http.response.body", "body": b"", "more_body": True})'),
    ("skip-empty", W, "        for chunk in self.app(environ, start_response):\n", "        for chunk in self.app(environ, start_response):\n            if not chunk:\n                break\n"),
    ("swallow", W, "                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)", "                try:\n                    await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)\n                except Exception:\n                    pass"),
    ("call-twice", W, "        for chunk in self.app(environ, start_response):\n", "        self.app(environ, start_response)\n        for chunk in self.app(environ, start_response):\n"),
    ("bounded", W, "create_memory_object_stream(math.inf)", "create_memory_object_stream(math.inf)") if False else ("status-str", W, "status_code = int(status_code_string)", "status_code = int(status_code_string) if status_code_string != \"204\" else 200"),
]
GOOD = [
    ("chunks", W, '        body = b""\n        more_body = True\n        while more_body:\n            message = await receive()\n            body += message.get("body", b"")\n            more_body = message.get("more_body", False)\n', '        parts = []\n        while True:\n            message = await receive()\n            parts.append(message.get("body", b""))\n            if not message.get("more_body", False):\n                break\n        body = b"".join(parts)\n'),
    ("removeprefix", W, "    if path_info.startswith(script_name):\n        path_info = path_info[len(script_name) :]", "    path_info = path_info[len(script_name) :] if path_info.startswith(script_name) else path_info"),
    ("headers-table", W, '        if name == "content-length":\n            corrected_name = "CONTENT_LENGTH"\n        elif name == "content-type":\n            corrected_name = "CONTENT_TYPE"\n        else:\n            corrected_name = f"HTTP_{name}".upper().replace("-", "_")', '        corrected_name = name.upper().replace("-", "_")\n        if name not in ("content-length", "content-type"):\n            corrected_name = "HTTP_" + corrected_name'),
    ("join", W, '            value = environ[corrected_name] + "," + value', '            value = ",".join((environ[corrected_name], value))'),
    ("put", W, '        for chunk in self.app(environ, start_response):\n            anyio.from_thread.run(\n                self.stream_send.send,\n                {"type": "http.response.body", "body": chunk, "more_body": True},\n            )\n\n        anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})', '        for chunk in self.app(environ, start_response):\n            self._put({"type": "http.response.body", "body": chunk, "more_body": True})\n        self._put({"type": "http.response.body", "body": b"", "more_body": False})\n\n    def _put(self, message: typing.Any) -> None:\n        anyio.from_thread.run(self.stream_send.send, message)'),
    ("early-return", W, "        if not self.response_started:  # pragma: no branch\n            self.response_started = True\n            status_code_string, _ = status.split(\" \", 1)\n            status_code = int(status_code_string)\n", "        if not self.response_started:  # pragma: no branch\n            self.response_started = True\n            status_code = int(status.partition(\" \")[0])\n"),
    ("try-finally", W, "            async with self.stream_send:\n                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)", "            try:\n                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)\n            finally:\n                await self.stream_send.aclose()"),
    ("raise-1", W, "            raise self.exc_info[0].with_traceback(self.exc_info[1], self.exc_info[2])", "            raise self.exc_info[1].with_traceback(self.exc_info[2])"),
]
