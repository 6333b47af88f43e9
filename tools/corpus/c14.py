F = "middleware/sessions.py"
BAD = [
    ("noage", F, "unsign(data, max_age=self.max_age)", "unsign(data)"),
    ("expired-only", F, ["except BadSignature", "from itsdangerous.exc import BadSignature"], ["except SignatureExpired", "from itsdangerous.exc import SignatureExpired"]),
    ("unverified", F, "except BadSignature:\n                scope[\"session\"] = {}", "except BadSignature:\n                scope[\"session\"] = json.loads(b64decode(data.split(b'.')[0]))"),
    ("flag", F, "                initial_session_was_empty = False\n            except", "            except"),
    ("flagbad", F, 'except BadSignature:\n', 'except BadSignature:\n                initial_session_was_empty = False\n'),
    ("ws", F, 'not in ("http", "websocket")', 'not in ("http",)'),
    ("setcookie-overwrite", F, 'headers.append("Set-Cookie", header_value)\n                elif', 'headers["Set-Cookie"] = header_value\n                elif'),
    ("clear-domain", F, '{expires}{security_flags}', '{expires}httponly; samesite=strict'),
    ("clear-path", F, 'expires="expires=Thu, 01 Jan 1970 00:00:00 GMT; ",', 'expires="expires=Thu, 01 Jan 1970 00:00:00 GMT; ",', ),
    ("maxage-none", F, 'max_age=f"Max-Age={self.max_age}; " if self.max_age else ""', 'max_age=f"Max-Age={self.max_age}; "'),
    ("secure-inverted", F, "if https_only:", "if not https_only:"),
    ("early-snapshot", F, ["        async def send_wrapper", "if scope[\"session\"]:"], ["        session = scope[\"session\"]\n\n        async def send_wrapper", "if session:"]),
    ("shared", F, ["        else:\n            scope[\"session\"] = {}", "        self.app = app\n"], ["        else:\n            scope[\"session\"] = self.empty", "        self.app = app\n        self.empty: dict = {}\n"]),
    ("unsigned", F, "                    data = self.signer.sign(data)\n", "                    data = data\n"),
    ("always", F, 'elif not initial_session_was_empty:', 'else:'),
    ("fixedpath", F, "path=self.path,\n                        max_age", "path='/',\n                        max_age"),
    ("wrongcookie", F, "data = connection.cookies[self.session_cookie]", "data = connection.cookies.get('session', '')"),
    ("domainpos", F, 'if domain is not None:', 'if domain is not None and https_only:'),
]
BAD = [b for b in BAD if b[2] != b[3]]
GOOD = [
    ("get", F, 'if self.session_cookie in connection.cookies:\n            data = connection.cookies[self.session_cookie].encode("utf-8")', 'cookie = connection.cookies.get(self.session_cookie)\n        if cookie is not None:\n            data = cookie.encode("utf-8")'),
    ("reorder", F, 'self.security_flags = "httponly; samesite=" + same_site\n        if https_only:  # Secure flag can be used with HTTPS only\n            self.security_flags += "; secure"\n', 'self.security_flags = f"samesite={same_site}; httponly"\n        self.security_flags = self.security_flags + ("; secure" if https_only else "")\n'),
    ("default", F, ["        initial_session_was_empty = True\n", "            except BadSignature:\n                scope[\"session\"] = {}\n        else:\n            scope[\"session\"] = {}\n"], ["        initial_session_was_empty = True\n        scope[\"session\"] = {}\n", "            except BadSignature:\n                pass\n"]),
    ("helper", F, ["                    data = b64encode(json.dumps(scope[\"session\"]).encode(\"utf-8\"))\n                    data = self.signer.sign(data)\n", "    async def __call__"], ["                    data = self._encode(scope[\"session\"])\n", "    def _encode(self, session):\n        raw = json.dumps(session)\n        return self.signer.sign(b64encode(raw.encode(\"utf-8\")))\n\n    async def __call__"]),
    ("len", F, 'if scope["session"]:', 'session = scope["session"]\n                if len(session) > 0:'),
    ("fstr", F, '"{session_cookie}={data}; path={path}; {max_age}{security_flags}".format(\n                        session_cookie=self.session_cookie,\n                        data=data.decode("utf-8"),\n                        path=self.path,\n                        max_age=f"Max-Age={self.max_age}; " if self.max_age else "",\n                        security_flags=self.security_flags,\n                    )',
     '"; ".join([f"{self.session_cookie}={data.decode(\'utf-8\')}", f"path={self.path}"] + ([f"Max-Age={self.max_age}"] if self.max_age else []) + [self.security_flags])'),
]
