F = "middleware/cors.py"
BAD = [
    ("match", F, "fullmatch(origin)", "match(origin)"),
    ("search", F, "fullmatch(origin)", "search(origin)"),
    ("no-vary", F, '        headers.add_vary_header("Origin")', '        pass'),
    ("vary-set", F, 'headers.add_vary_header("Origin")', 'headers["Vary"] = "Origin"'),
    ("no-cookie", F, "self.allow_all_origins and has_cookie:", "self.allow_all_origins and False:"),
    ("simple-any", F, "elif not self.allow_all_origins and self.is_allowed_origin(origin=origin):", "elif not self.allow_all_origins:"),
    ("pre-any", F, "            if self.preflight_explicit_allow_origin:", "            if True:\n                pass\n        if True:\n            if self.preflight_explicit_allow_origin:") ,
    ("startswith", F, "return origin in self.allow_origins", "return any(origin.startswith(o) for o in self.allow_origins)"),
    ("acrm", F, 'if method == "OPTIONS" and "access-control-request-method" in headers:', 'if method == "OPTIONS":'),
    ("acrm2", F, 'if method == "OPTIONS" and "access-control-request-method" in headers:', 'if "access-control-request-method" in headers:'),
    ("hdr-first", F, '                    failures.append("headers")\n                    break', '                    failures.append("headers")\n                break'),
    ("hdr-any", F, "for header in [h.lower() for h in requested_headers.split(\",\")]:\n                if header.strip() not in self.allow_headers:\n                    failures.append(\"headers\")\n                    break",
     "if not any(h.lower().strip() in self.allow_headers for h in requested_headers.split(\",\")):\n                failures.append(\"headers\")"),
    ("hdr-case", F, "[h.lower() for h in requested_headers.split(\",\")]", "requested_headers.split(\",\")"),
    ("hdr-nolowercfg", F, "[h.lower() for h in allow_headers]", "list(allow_headers)"),
    ("methods", F, "if requested_method not in self.allow_methods:", "if requested_method not in ALL_METHODS:"),
    ("cred-explicit", F, "not allow_all_origins or allow_credentials", "not allow_all_origins"),
    ("cred-always", F, '        if allow_credentials:\n            simple_headers', '        if True:\n            simple_headers'),
    ("mutating-preflight", F, "headers = dict(self.preflight_headers)", "headers = self.preflight_headers"),
    ("wild-star-always", F, 'if allow_all_origins:\n            simple_headers', 'if allow_all_origins or not allow_origins:\n            simple_headers'),
    ("safelist", F, "sorted(SAFELISTED_HEADERS | set(allow_headers))", "sorted(set(allow_headers) or SAFELISTED_HEADERS)"),
    ("200", F, "status_code=400, headers=headers", "status_code=200, headers=headers"),
    ("originlower", F, "return origin in self.allow_origins", "return origin.lower() in self.allow_origins"),
    ("next-origin", F, 'headers["Access-Control-Allow-Origin"] = requested_origin', 'headers["Access-Control-Allow-Origin"] = self.allow_origins[0] if self.allow_origins else requested_origin'),
]
GOOD = [
    ("all", F, "for header in [h.lower() for h in requested_headers.split(\",\")]:\n                if header.strip() not in self.allow_headers:\n                    failures.append(\"headers\")\n                    break",
     "if not all(h.strip().lower() in self.allow_headers for h in requested_headers.split(\",\")):\n                failures.append(\"headers\")"),
    ("any", F, "for header in [h.lower() for h in requested_headers.split(\",\")]:\n                if header.strip() not in self.allow_headers:\n                    failures.append(\"headers\")\n                    break",
     "if any(h.strip() not in self.allow_headers for h in requested_headers.lower().split(\",\")):\n                failures.append(\"headers\")"),
    ("helper", F, ["        failures = []\n", "        if self.is_allowed_origin(origin=requested_origin):\n            if"], ["        failures: list = []\n        allowed = self.is_allowed_origin(requested_origin)\n", "        if allowed:\n            if"]),
    ("flip", F, "if self.allow_all_origins:\n            return True\n\n        if self.allow_origin_regex is not None and self.allow_origin_regex.fullmatch(origin):\n            return True\n\n        return origin in self.allow_origins",
     "if origin in self.allow_origins or self.allow_all_origins:\n            return True\n        return bool(self.allow_origin_regex is not None and self.allow_origin_regex.fullmatch(origin))"),
    ("set", F, "self.allow_headers = [h.lower() for h in allow_headers]", "self.allow_headers = {h.lower() for h in allow_headers}"),
    ("closure", F, "        send = functools.partial(self.send, send=send, request_headers=request_headers)\n        await self.app(scope, receive, send)",
     "        async def wrapped(message):\n            await self.send(message, send, request_headers)\n\n        await self.app(scope, receive, wrapped)"),
    ("copy", F, "headers = dict(self.preflight_headers)", "headers = {**self.preflight_headers}"),
    ("vary-inline", F, '        headers.add_vary_header("Origin")', '        existing = headers.get("vary")\n        headers["vary"] = "Origin" if existing is None else f"{existing}, Origin"'),
    ("early", F, ['        if origin is None:\n            await self.app(scope, receive, send)\n            return\n\n        if method == "OPTIONS" and "access-control-request-method" in headers:\n            response = self.preflight_response(request_headers=headers)\n            await response(scope, receive, send)\n            return\n\n        await self.simple_response(scope, receive, send, request_headers=headers)'],
     ['        is_preflight = method == "OPTIONS" and "access-control-request-method" in headers\n        if origin is None:\n            await self.app(scope, receive, send)\n        elif is_preflight:\n            response = self.preflight_response(request_headers=headers)\n            await response(scope, receive, send)\n        else:\n            await self.simple_response(scope, receive, send, request_headers=headers)']),
]
