F = "middleware/httpsredirect.py"
BAD = [
    ("no-ws", F, 'in ("http", "ws"):', 'in ("http",):'),
    ("http-only-type", F, 'in ("http", "websocket") and', '== "http" and'),
    ("status301", F, "307", "301"),
    ("status302", F, "status_code=307", "status_code=302"),
    ("swap", F, '{"http": "https", "ws": "wss"}', '{"http": "https", "ws": "https"}'),
    ("keepport", F, 'url.hostname if url.port in (80, 443) else url.netloc', 'url.netloc'),
    ("dropport", F, 'url.hostname if url.port in (80, 443) else url.netloc', 'url.hostname'),
    ("port80", F, '(80, 443)', '(80, 8080)'),
    ("noquery", F, 'netloc=netloc)', 'netloc=netloc, query="")'),
    ("fallthrough", F, "        else:\n            await self.app(scope, receive, send)", "        await self.app(scope, receive, send)"),
    ("scheme-mutate", F, "            await self.app(scope, receive, send)", "            scope['scheme'] = 'https'\n            await self.app(scope, receive, send)"),
    ("pathonly", F, "url = URL(scope=scope)", "url = URL(f\"{scope['scheme']}://{dict(scope['headers'])[b'host'].decode()}{scope['path']}\")"),
]
GOOD = [
    ("early", F, ['if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):\n', "        else:\n            await self.app(scope, receive, send)"],
     ['insecure = scope["scheme"] in ("http", "ws")\n        if insecure and scope["type"] in {"http", "websocket"}:\n', "            return\n        await self.app(scope, receive, send)"]),
    ("table", F, ['redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]', 'url.hostname if url.port in (80, 443) else url.netloc'],
     ['redirect_scheme = "https" if scope["scheme"] == "http" else "wss"', 'url.netloc if url.port not in {80, 443} else url.hostname']),
    ("split", F, '            url = url.replace(scheme=redirect_scheme, netloc=netloc)\n', '            url = url.replace(scheme=redirect_scheme)\n            url = url.replace(netloc=netloc)\n'),
    ("helper", F, ['            url = URL(scope=scope)\n', "    async def __call__"], ['            url = self._u(scope)\n', "    @staticmethod\n    def _u(scope):\n        return URL(scope=scope)\n\n    async def __call__"]),
    ("s", F, 'redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]', 'redirect_scheme = url.scheme + "s"'),
]
