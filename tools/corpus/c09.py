F = "routing.py"
BAD = [
    ("last-partial", F, "elif match == Match.PARTIAL and partial is None:", "elif match == Match.PARTIAL:"),
    ("partial-first", F, "            if match == Match.FULL:\n                scope.update(child_scope)", "            if match != Match.NONE:\n                scope.update(child_scope)"),
    ("merge-early", F, "            match, child_scope = route.matches(scope)\n            if match == Match.FULL:\n                scope.update(child_scope)\n", "            match, child_scope = route.matches(scope)\n            scope.update(child_scope)\n            if match == Match.FULL:\n"),
    ("no-return", F, "                await route.handle(scope, receive, send)\n                return\n            elif match == Match.PARTIAL", "                await route.handle(scope, receive, send)\n                break\n            elif match == Match.PARTIAL"),
    ("partial-scope", F, "                partial_scope = child_scope\n", "            partial_scope = child_scope\n"),
    ("partial-no-merge", F, "            scope.update(partial_scope)\n            await partial", "            await partial"),
    ("redirect-ws", F, 'if scope["type"] == "http" and self.redirect_slashes and', 'if self.redirect_slashes and'),
    ("redirect-always", F, 'if scope["type"] == "http" and self.redirect_slashes and', 'if scope["type"] == "http" and'),
    ("redirect-root", F, ' and self.redirect_slashes and route_path != "/":', ' and self.redirect_slashes:'),
    ("redirect-inplace", F, "redirect_scope = dict(scope)", "redirect_scope = scope"),
    ("redirect-full-only", F, "if match != Match.NONE:\n                    redirect_url", "if match == Match.FULL:\n                    redirect_url"),
    ("redirect-first-only", F, "                    await response(scope, receive, send)\n                    return\n\n        await self.default", "                    await response(scope, receive, send)\n                    return\n                break\n\n        await self.default"),
    ("redirect-original", F, "URL(scope=redirect_scope)", "URL(scope=scope)"),
    ("redirect-path-only", F, "str(redirect_url)", "redirect_url.path"),
    ("redirect-301", F, "RedirectResponse(url=str(redirect_url))", "RedirectResponse(url=str(redirect_url), status_code=301)"),
    ("redirect-scope-original", F, "match, child_scope = route.matches(redirect_scope)", "match, child_scope = route.matches(scope)"),
    ("router-overwrite", F, '        if "router" not in scope:\n            scope["router"] = self', '        scope["router"] = self'),
    ("default-hardwired", F, "        await self.default(scope, receive, send)", "        await self.not_found(scope, receive, send)"),
    ("notfound-app", F, 'if "app" in scope:\n            raise', 'if "router" not in scope:\n            raise'),
    ("notfound-ws", F, '        if scope["type"] == "websocket":\n            websocket_close', '        if scope["type"] == "websocket" and "app" not in scope:\n            websocket_close'),
    ("swallow", F, "                await route.handle(scope, receive, send)\n                return\n            elif match == Match.PARTIAL", "                try:\n                    await route.handle(scope, receive, send)\n                except KeyError:\n                    await self.default(scope, receive, send)\n                return\n            elif match == Match.PARTIAL"),
    ("sorted", F, "        for route in self.routes:\n            # Determine", "        for route in reversed(self.routes):\n            # Determine"),
    ("snapshot-routes", F, ["        self.routes = [] if routes is None else list(routes)\n", "        for route in self.routes:\n            # Determine"], ["        self.routes = [] if routes is None else list(routes)\n        self._dispatch = tuple(self.routes)\n", "        for route in self._dispatch:\n            # Determine"]),
]
GOOD = [
    ("helper", F, ["        partial = None\n\n        for route in self.routes:\n            # Determine", "    async def app(self, scope: Scope"], ["        partial = None\n\n        for route in self._all():\n            # Determine", "    def _all(self):\n        return list(self.routes)\n\n    async def app(self, scope: Scope"]),
    ("is", F, ["if match == Match.FULL:", "elif match == Match.PARTIAL and partial is None:"], ["if match is Match.FULL:", "elif match is Match.PARTIAL and not partial:"]),
    ("tuple", F, ["        partial = None\n", "elif match == Match.PARTIAL and partial is None:\n                partial = route\n                partial_scope = child_scope", "        if partial is not None:", "            scope.update(partial_scope)\n            await partial.handle"],
     ["        partials = []\n", "elif match == Match.PARTIAL:\n                partials.append((route, child_scope))", "        if partials:", "            scope.update(partials[0][1])\n            await partials[0][0].handle"]),
    ("any", F, """            for route in self.routes:
                match, child_scope = route.matches(redirect_scope)
                if match != Match.NONE:
                    redirect_url = URL(scope=redirect_scope)
                    response = RedirectResponse(url=str(redirect_url))
                    await response(scope, receive, send)
                    return
""", """            if any(route.matches(redirect_scope)[0] != Match.NONE for route in self.routes):
                redirect_url = URL(scope=redirect_scope)
                response = RedirectResponse(url=str(redirect_url))
                await response(scope, receive, send)
                return
"""),
    ("newdict", F, """            redirect_scope = dict(scope)
            if route_path.endswith("/"):
                redirect_scope["path"] = redirect_scope["path"].rstrip("/")
            else:
                redirect_scope["path"] = redirect_scope["path"] + "/"
""", """            path = scope["path"]
            redirect_scope = {**scope, "path": path.rstrip("/") if path.endswith("/") else f"{path}/"}
"""),
    ("setdefault", F, '        if "router" not in scope:\n            scope["router"] = self', '        scope.setdefault("router", self)'),
]
