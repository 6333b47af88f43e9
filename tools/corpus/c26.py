R = "requests.py"
BAD = [
    ("more-default", R, 'message.get("more_body", False)', 'message.get("more_body", True)'),
    ("body-last-only", R, 'self._body = b"".join(chunks)', 'self._body = chunks[-1]'),
    ("not-cached", R, '            self._body = b"".join(chunks)\n        return self._body', '            return b"".join(chunks)\n        return self._body'),
    ("no-consumed", R, '                    self._stream_consumed = True\n', '                    if body:\n                        yield body\n                    break\n'),
    ("disconnect-flag", R, "                self._is_disconnected = True\n                raise ClientDisconnect()", "                raise ClientDisconnect()"),
    ("disconnect-end", R, "                self._is_disconnected = True\n                raise ClientDisconnect()", "                self._is_disconnected = True\n                return"),
    ("yield-empty", R, "                if body:\n                    yield body\n", "                yield body\n"),
    ("empty-ends", R, "                if body:\n                    yield body\n", "                if body:\n                    yield body\n                else:\n                    self._stream_consumed = True\n"),
    ("no-final", R, '                raise ClientDisconnect()\n        yield b""', '                raise ClientDisconnect()'),
    ("no-cached-final", R, '            yield self._body\n            yield b""\n', '            yield self._body\n'),
    ("json-falsy", R, ['        if not hasattr(self, "_json"):  # pragma: no branch\n            body = await self.body()\n            self._json = json.loads(body)', '        self._form = None\n\n    @property\n    def method'], ['        if not self._json:\n            body = b"".join([c async for c in self.stream()])\n            self._json = json.loads(body)', '        self._form = None\n        self._json: typing.Any = None\n\n    @property\n    def method']),
    ("body-falsy", R, ['        if not hasattr(self, "_body"):\n            chunks', '        if hasattr(self, "_body"):', '        self._form = None\n\n    @property\n    def method'], ['        if not self._body:\n            chunks', '        if self._body:', '        self._form = None\n        self._body = b""\n\n    @property\n    def method']),
    ("class-body", R, ['            self._body = b"".join(chunks)\n'], ['            type(self)._body = b"".join(chunks)\n']),
    ("disc-twice", R, "        if not self._is_disconnected:\n            message", "        if True:\n            message"),
    ("disc-not-kept", R, '                self._is_disconnected = True\n\n        return self._is_disconnected', '                return True\n\n        return False'),
    ("disc-any", R, 'if message.get("type") == "http.disconnect":\n                self', 'if message:\n                self'),
    ("reads-ahead", R, '                    self._stream_consumed = True\n', '                    self._stream_consumed = True\n                    await self.is_disconnected()\n'),
    ("body-keyerror", R, 'message.get("body", b"")\n                if not', 'message["body"]\n                if not'),
]
GOOD = [
    ("bytes-acc", R, ['            chunks: list[bytes] = []\n            async for chunk in self.stream():\n                chunks.append(chunk)\n            self._body = b"".join(chunks)'], ['            data = b""\n            async for chunk in self.stream():\n                data += chunk\n            self._body = data']),
    ("compr", R, ['            chunks: list[bytes] = []\n            async for chunk in self.stream():\n                chunks.append(chunk)\n            self._body = b"".join(chunks)'], ['            self._body = b"".join([chunk async for chunk in self.stream()])']),
    ("none-cache", R, ['        if not hasattr(self, "_body"):\n            chunks', '        if hasattr(self, "_body"):', '        self._form = None\n\n    @property\n    def method'], ['        if self._body is None:\n            chunks', '        if self._body is not None:', '        self._form = None\n        self._body: typing.Any = None\n\n    @property\n    def method']),
    ("while-true", R, ['        while not self._stream_consumed:\n', '                if body:\n                    yield body\n'], ['        while True:\n', '                if body:\n                    yield body\n                if self._stream_consumed:\n                    break\n']),
    ("guard-order", R, '        if self._stream_consumed:\n            raise RuntimeError("Stream consumed")\n        while not self._stream_consumed:', '        consumed = self._stream_consumed\n        if consumed is True:\n            raise RuntimeError("Stream consumed")\n        while not (self._stream_consumed or self._is_disconnected):'),
    ("early-disc", R, '        if not self._is_disconnected:\n            message: Message = {}\n\n            # If message isn\'t immediately available, move on\n            with anyio.CancelScope() as cs:\n                cs.cancel()\n                message = await self._receive()\n\n            if message.get("type") == "http.disconnect":\n                self._is_disconnected = True\n\n        return self._is_disconnected', '        if self._is_disconnected:\n            return True\n        message: Message = {}\n        with anyio.CancelScope() as cs:\n            cs.cancel()\n            message = await self._receive()\n        self._is_disconnected = message.get("type") == "http.disconnect"\n        return self._is_disconnected'),
]
