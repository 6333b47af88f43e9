D = "datastructures.py"
BAD = [
    ("keep-blank-inc", D, "        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))\n        params.update", "        params = MultiDict(parse_qsl(self.query))\n        params.update"),
    ("keep-blank-rem", D, "        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))\n        for key", "        params = MultiDict(parse_qsl(self.query))\n        for key"),
    ("inc-dict", D, "        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))\n        params.update", "        params = dict(parse_qsl(self.query, keep_blank_values=True))\n        params.update", ) if False else
    ("inc-lossy", D, "        query = urlencode(params.multi_items())\n        return self.replace(query=query)\n\n    def replace_query", "        query = urlencode(dict(params))\n        return self.replace(query=query)\n\n    def replace_query"),
    ("rem-lossy", D, "        query = urlencode(params.multi_items())\n        return self.replace(query=query)\n\n    def __eq__", "        query = urlencode(params)\n        return self.replace(query=query)\n\n    def __eq__"),
    ("rem-string-chars", D, "        if isinstance(keys, str):\n            keys = [keys]\n", ""),
    ("repl-query-append", D, "query = urlencode([(str(key), str(value)) for key, value in kwargs.items()])", "query = urlencode([(str(key), str(value)) for key, value in kwargs.items() if value])"),
    ("mask-truthy-user", D, "        if self.password:\n", "        if self.password and self.username:\n"),
    ("mask-text", D, '            url = str(self.replace(password="********"))', '            url = url.replace(self.password, "********")'),
    ("mask-scheme", D, "        if self.password:\n", "        if self.password and self.scheme:\n") if False else ("no-mask", D, "        if self.password:\n", "        if False:\n"),
    ("repr-class", D, 'return f"{self.__class__.__name__}({repr(url)})"', 'return f"URL({repr(url)})"'),
    ("partition", D, 'netloc.rpartition("@")', 'netloc.partition("@")'),
    ("no-brackets", D, 'hostname = hostname.rsplit(":", 1)[0]', 'hostname = hostname.split(":", 1)[0]'),
    ("port-dropped", D, 'port = kwargs.pop("port", self.port)', 'port = kwargs.pop("port", None)'),
    ("port-falsy", D, "            if port is not None:\n                netloc +=", "            if port:\n                netloc +=") if False else ("port-default", D, "            if port is not None:\n                netloc +=", "            if port is not None and port != 443:\n                netloc +=") if False else
    ("host-lower", D, "            if hostname is None:\n                netloc = self.netloc\n", "            if hostname is None:\n                hostname = self.hostname\n            if hostname is None:\n                netloc = self.netloc\n"),
    ("pw-dropped", D, 'password = kwargs.pop("password", self.password)', 'password = kwargs.pop("password", None)'),
    ("user-dropped", D, 'username = kwargs.pop("username", self.username)', 'username = kwargs.pop("username", None)'),
    ("user-falsy", D, "            if username is not None:\n", "            if username:\n"),
    ("pw-falsy", D, "                if password is not None:\n", "                if password:\n"),
    ("no-port-trigger", D, ' or "hostname" in kwargs or "port" in kwargs:', ' or "hostname" in kwargs:'),
    ("same-class", D, "        return self.__class__(components.geturl())", "        self._url = components.geturl()\n        return self"),
    ("cached", D, "            self._components = urlsplit(self._url)\n", "            self._components = urlsplit(self._url.lower())\n"),
    ("default-port-ws", D, '"ws": 80, "wss": 443}[scheme]', '"ws": 80, "wss": 80}[scheme]'),
    ("last-host", D, '                    host_header = value.decode("latin-1")\n                    break\n', '                    host_header = value.decode("latin-1")\n'),
    ("default-any", D, "if port == default_port:", "if port in (80, 443):"),
    ("query-empty", D, "            if query_string:\n                url +=", '            if "query_string" in scope:\n                url +='),
    ("server-first", D, "            if host_header is not None:\n                url", "            if host_header is not None and server is None:\n                url"),
    ("secure", D, 'return self.scheme in ("https", "wss")', 'return self.scheme == "https"'),
    ("abs-protocol", D, '"websocket": {True: "wss", False: "ws"},', '"websocket": {True: "wss", False: "wss"},'),
    ("abs-host", D, "netloc = self.host or base_url.netloc", "netloc = base_url.netloc or self.host"),
    ("abs-hostname", D, "netloc = self.host or base_url.netloc", "netloc = self.host or base_url.hostname"),
    ("abs-root", D, 'path = base_url.path.rstrip("/") + str(self)', "path = str(self)"),
    ("abs-slash", D, 'path = base_url.path.rstrip("/") + str(self)', "path = base_url.path[:-1] + str(self)"),
    ("secret-repr", D, "return f\"{class_name}('**********')\"", "return f\"{class_name}('{self._value[:2]}**********')\""),
    ("secret-len", D, "return f\"{class_name}('**********')\"", "return f\"{class_name}('{'*' * len(self._value)}')\""),
    ("secret-str", D, "    def __str__(self) -> str:\n        return self._value\n\n    def __bool__", "    def __str__(self) -> str:\n        return repr(self)\n\n    def __bool__"),
    ("secret-bool", D, "        return bool(self._value)", "        return True"),
    ("both-accepted", D, "            assert not url, 'Cannot set both \"url\" and \"scope\".'\n", ""),
]
GOOD = [
    ("rsplit-at", D, '                _, _, hostname = netloc.rpartition("@")\n', '                hostname = netloc.rsplit("@", 1)[-1]\n'),
    ("set-test", D, '        if "username" in kwargs or "password" in kwargs or "hostname" in kwargs or "port" in kwargs:\n', '        if {"username", "password", "hostname", "port"} & kwargs.keys():\n'),
    ("any-test", D, '        if "username" in kwargs or "password" in kwargs or "hostname" in kwargs or "port" in kwargs:\n', '        if any(name in kwargs for name in ("username", "password", "hostname", "port")):\n'),
    ("rem-filter", D, "        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))\n        for key in keys:\n            params.pop(key, None)\n        query = urlencode(params.multi_items())\n", "        items = parse_qsl(self.query, keep_blank_values=True)\n        query = urlencode([(k, v) for k, v in items if k not in keys])\n"),
    ("inc-filter", D, "        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))\n        params.update({str(key): str(value) for key, value in kwargs.items()})\n        query = urlencode(params.multi_items())\n", "        items = [(k, v) for k, v in parse_qsl(self.query, keep_blank_values=True) if k not in kwargs]\n        items.extend((key, str(value)) for key, value in kwargs.items())\n        query = urlencode(items)\n"),
    ("helper", D, "            netloc = hostname\n            if port is not None:\n                netloc += f\":{port}\"\n", "            netloc = hostname if port is None else f\"{hostname}:{port}\"\n"),
    ("eager", D, "        if not hasattr(self, \"_components\"):\n            self._components = urlsplit(self._url)\n        return self._components\n", "        return urlsplit(self._url)\n"),
    ("default-get", D, 'default_port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]', 'default_port = 443 if scheme in ("https", "wss") else 80'),
    ("headers-next", D, '            host_header = None\n            for key, value in scope["headers"]:\n                if key == b"host":\n                    host_header = value.decode("latin-1")\n                    break\n', '            host_header = next((value.decode("latin-1") for key, value in scope["headers"] if key == b"host"), None)\n'),
    ("is-secure", D, 'return self.scheme in ("https", "wss")', 'return self.scheme == "https" or self.scheme == "wss"'),
    ("repr-r", D, 'return f"{self.__class__.__name__}({repr(url)})"', 'return f"{type(self).__name__}({url!r})"'),
    ("abs-if", D, '            scheme = {\n                "http": {True: "https", False: "http"},\n                "websocket": {True: "wss", False: "ws"},\n            }[self.protocol][base_url.is_secure]\n', '            scheme = "http" if self.protocol == "http" else "ws"\n            if base_url.is_secure:\n                scheme += "s"\n'),
    ("secret-const", D, "        class_name = self.__class__.__name__\n        return f\"{class_name}('**********')\"", "        return \"%s(%r)\" % (self.__class__.__name__, \"**********\")"),
    ("unsplit", D, "        components = self.components._replace(**kwargs)\n        return self.__class__(components.geturl())", "        components = {**self.components._asdict(), **kwargs}\n        return self.__class__(SplitResult(**components).geturl())"),
]
_B = "requests.py"
BAD += [
    ("base query", _B, '            base_url_scope["query_string"] = b""\n', ''),
    ("base root", _B, 'base_url_scope.get("app_root_path", base_url_scope.get("root_path", ""))', 'base_url_scope.get("root_path", "")'),
    ("base or", _B, 'base_url_scope.get("app_root_path", base_url_scope.get("root_path", ""))', 'base_url_scope.get("app_root_path") or base_url_scope.get("root_path", "")'),
    ("base slash", _B, '            if not path.endswith("/"):\n                path += "/"\n            base', '            path += "/"\n            base'),
    ("base shared", _B, 'base_url_scope = dict(self.scope)', 'base_url_scope = self.scope'),
]
