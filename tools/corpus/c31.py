R, D = "requests.py", "datastructures.py"
BAD = [
    ("state-copy", R, 'self._state = State(self.scope["state"])', 'self._state = State(dict(self.scope["state"]))'),
    ("state-reset", R, 'self.scope.setdefault("state", {})', 'self.scope["state"] = {}'),
    ("state-falsy", R, 'self.scope.setdefault("state", {})', 'self.scope["state"] = self.scope.get("state") or {}'),
    ("state-none", D, "        if state is None:\n            state = {}\n", "        state = dict(state or {})\n"),
    ("state-shared", D, "def __init__(self, state: dict[str, typing.Any] | None = None):\n        if state is None:\n            state = {}\n", "def __init__(self, state: dict[str, typing.Any] = {}):\n"),
    ("state-keyerror", D, "        try:\n            return self._state[key]\n        except KeyError:\n            message = \"'{}' object has no attribute '{}'\"\n            raise AttributeError(message.format(self.__class__.__name__, key))", "        return self._state.get(key)"),
    ("state-setnew", D, "        self._state[key] = value\n\n    def __getattr__", "        self._state.setdefault(key, value)\n\n    def __getattr__"),
    ("state-del-all", D, "        del self._state[key]\n", "        self._state.clear()\n"),
    ("client-order", R, "return Address(*host_port)", "return Address(*reversed(host_port))"),
    ("client-default", R, 'host_port = self.scope.get("client")', 'host_port = self.scope["client"]'),
    ("path-params-copy", R, 'return self.scope.get("path_params", {})', 'return dict(self.scope.get("path_params", {}))'),
    ("auth-default", R, '        assert "auth" in self.scope, "AuthenticationMiddleware must be installed to access request.auth"\n        return self.scope["auth"]', '        return self.scope.get("auth")'),
    ("user-auth", R, 'return self.scope["user"]', 'return self.scope["auth"]'),
    ("session-create", R, '        assert "session" in self.scope, "SessionMiddleware must be installed to access request.session"\n        return self.scope["session"]', '        return self.scope.setdefault("session", {})'),
    ("type-any", R, 'assert scope["type"] in ("http", "websocket")\n', 'assert scope["type"] in ("http", "websocket", "lifespan")\n'),
    ("type-request", R, '        assert scope["type"] == "http"\n', ''),
    ("eq", R, "    __eq__ = object.__eq__\n", "    def __eq__(self, other: typing.Any) -> bool:\n        return isinstance(other, HTTPConnection) and self.scope is other.scope\n\n"),
    ("eq-mapping", R, "    __eq__ = object.__eq__\n    __hash__ = object.__hash__\n", ""),
    ("scope-copy", R, "        self.scope = scope\n", "        self.scope = dict(scope)\n"),
    ("cookie-eq", R, 'key, val = chunk.split("=", 1)', 'key, _, val = chunk.rpartition("=")'),
    ("cookie-noempty", R, 'key, val = "", chunk', 'continue'),
    ("cookie-and", R, "if key or val:", "if key and val:"),
    ("cookie-key", R, "if key or val:", "if key:"),
    ("cookie-strip", R, "key, val = key.strip(), val.strip()", "key = key.strip()"),
    ("cookie-unquote", R, "cookie_dict[key] = http_cookies._unquote(val)", "cookie_dict[key] = val.strip('\"')"),
    ("cookie-first", R, "cookie_dict[key] = http_cookies._unquote(val)", "cookie_dict.setdefault(key, http_cookies._unquote(val))"),
    ("cookie-none", R, "            if cookie_header:\n                cookies = cookie_parser(cookie_header)\n", "            cookies = cookie_parser(cookie_header)\n"),
    ("cookie-class-cache", R, ["            self._cookies = cookies\n"], ["            HTTPConnection._cookies = cookies\n"]),
    ("cookie-default-arg", R, ["def cookie_parser(cookie_string: str) -> dict[str, str]:", "    cookie_dict: dict[str, str] = {}\n"], ["def cookie_parser(cookie_string: str, cookie_dict: dict[str, str] = {}) -> dict[str, str]:", ""]),
    ("push-always", R, 'if "http.response.push" in self.scope.get("extensions", {}):', 'if self.scope.get("extensions", {}):'),
    ("push-keyerror", R, 'in self.scope.get("extensions", {}):', 'in self.scope["extensions"]:'),
    ("push-first", R, "                for value in self.headers.getlist(name):\n                    raw_headers.append((name.encode(\"latin-1\"), value.encode(\"latin-1\")))", "                value = self.headers.get(name)\n                if value:\n                    raw_headers.append((name.encode(\"latin-1\"), value.encode(\"latin-1\")))"),
    ("push-cookie", R, '    "accept",\n', '    "accept",\n    "cookie",\n'),
    ("push-names", R, '    "cache-control",\n', ''),
    ("push-twice", R, '                    raw_headers.append((name.encode("latin-1"), value.encode("latin-1")))\n            await', '                    raw_headers.append((name.encode("latin-1"), value.encode("latin-1")))\n                await'),
]
GOOD = [
    ("state-in", R, '            self.scope.setdefault("state", {})\n', '            if "state" not in self.scope:\n                self.scope["state"] = {}\n'),
    ("state-cached-var", R, '            self._state = State(self.scope["state"])\n        return self._state', '            state = State(self.scope["state"])\n            self._state = state\n            return state\n        return self._state'),
    ("state-or", D, "        try:\n            return self._state[key]\n        except KeyError:\n            message = \"'{}' object has no attribute '{}'\"\n            raise AttributeError(message.format(self.__class__.__name__, key))", "        if key not in self._state:\n            raise AttributeError(f\"{type(self).__name__!r} object has no attribute {key!r}\")\n        return self._state[key]"),
    ("cookie-partition", R, '        if "=" in chunk:\n            key, val = chunk.split("=", 1)\n        else:\n            # Assume an empty name per\n            # https://bugzilla.mozilla.org/show_bug.cgi?id=169091\n            key, val = "", chunk\n', '        key, sep, val = chunk.partition("=")\n        if not sep:\n            key, val = "", chunk\n'),
    ("cookie-continue", R, "        if key or val:\n            # unquote using Python's algorithm.\n            cookie_dict[key] = http_cookies._unquote(val)", "        if not (key or val):\n            continue\n        cookie_dict[key] = http_cookies._unquote(val)"),
    ("cookie-get", R, "            cookies: dict[str, str] = {}\n            cookie_header = self.headers.get(\"cookie\")\n\n            if cookie_header:\n                cookies = cookie_parser(cookie_header)\n            self._cookies = cookies", "            self._cookies = cookie_parser(self.headers.get(\"cookie\", \"\"))"),
    ("client-attrs", R, "        if host_port is not None:\n            return Address(*host_port)\n        return None", "        if host_port is None:\n            return None\n        host, port = host_port\n        return Address(host=host, port=port)"),
    ("push-comp", R, "            raw_headers: list[tuple[bytes, bytes]] = []\n            for name in SERVER_PUSH_HEADERS_TO_COPY:\n                for value in self.headers.getlist(name):\n                    raw_headers.append((name.encode(\"latin-1\"), value.encode(\"latin-1\")))", "            raw_headers = [(name, value) for name, value in self.headers.raw if name.decode(\"latin-1\") in SERVER_PUSH_HEADERS_TO_COPY]"),
    ("ne-hash", R, "    __eq__ = object.__eq__\n", "    def __eq__(self, other: typing.Any) -> bool:\n        return self is other\n\n"),
]
