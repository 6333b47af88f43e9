F = "middleware/trustedhost.py"
BAD = [
    ("suffix2", F, "host.endswith(pattern[1:])", "host.endswith(pattern[2:])"),
    ("nosplit", F, '.split(":")[0]', ''),
    ("in", F, 'host.endswith(pattern[1:])', 'pattern[1:] in host'),
    ("xfh", F, 'headers.get("host", "")', 'headers.get("x-forwarded-host", headers.get("host", ""))'),
    ("www-admit", F, '                found_www_redirect = True\n', '                found_www_redirect = True\n                is_valid_host = self.www_redirect\n'),
    ("ws-skip", F, '''            "websocket",
        ):''', '''        ):'''),
    ("assert", F, 'if pattern.startswith("*") and pattern != "*":\n                assert pattern.startswith("*."), ENFORCE_DOMAIN_WILDCARD', 'pass'),
    ("anydot", F, 'self.allow_any = "*" in allowed_hosts', 'self.allow_any = any(p.startswith("*") for p in allowed_hosts)'),
    ("startswith", F, 'host.endswith(pattern[1:])', 'host.endswith(pattern.lstrip("*."))'),
    ("redirect-always", F, 'found_www_redirect and self.www_redirect', 'found_www_redirect'),
    ("break-first", F, '                found_www_redirect = True\n', '                found_www_redirect = True\n                break\n'),
    ("status", F, 'status_code=400', 'status_code=200'),
    ("rsplit", F, '.split(":")[0]', '.rsplit("@")[-1].split(":")[0]'),
]
GOOD = [
    ("helper", F, ['''        is_valid_host = False
        found_www_redirect = False
        for pattern in self.allowed_hosts:
            if host == pattern or (pattern.startswith("*") and host.endswith(pattern[1:])):
                is_valid_host = True
                break
            elif "www." + host == pattern:
                found_www_redirect = True
''', '    async def __call__'], ['''        is_valid_host = any(self._matches(host, pattern) for pattern in self.allowed_hosts)
        found_www_redirect = f"www.{host}" in self.allowed_hosts
''', '''    @staticmethod
    def _matches(host: str, pattern: str) -> bool:
        if pattern[:1] == "*":
            return host.endswith(pattern[1:])
        return host == pattern

    async def __call__''']),
    ("partition", F, '.split(":")[0]', '.partition(":")[0]'),
    ("precompute", F, ['self.www_redirect = www_redirect', 'host == pattern or (pattern.startswith("*") and host.endswith(pattern[1:]))'],
     ['self.www_redirect = www_redirect\n        self.exact = {p for p in allowed_hosts if not p.startswith("*")}\n        self.suffixes = tuple(p[1:] for p in allowed_hosts if p.startswith("*"))',
      'host in self.exact or host.endswith(self.suffixes)']),
    ("early", F, '''        if is_valid_host:
            await self.app(scope, receive, send)
        else:
            response: Response
            if found''', '''        if is_valid_host:
            await self.app(scope, receive, send)
            return
        if True:
            response: Response
            if found'''),
]
