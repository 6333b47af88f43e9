A, R = "applications.py", "routing.py"
def a(name, old, new):
    return (name, A, old, new)
def r(name, old, new):
    return (name, R, old, new)
BAD = [
    a("app-add-route-methods", "self.router.add_route(path, route, methods=methods, name=name, include_in_schema=include_in_schema)", "self.router.add_route(path, route, methods=methods, name=name)"),
    a("app-add-ws-name", "self.router.add_websocket_route(path, route, name=name)", "self.router.add_websocket_route(path, route)"),
    a("app-route-decorator-none", "                include_in_schema=include_in_schema,\n            )\n            return func\n", "                include_in_schema=include_in_schema,\n            )\n"),
    a("app-host-name", "self.router.host(host, app=app, name=name)", "self.router.host(host, app=app)"),
    a("app-mount-name", "self.router.mount(path, app=app, name=name)", "self.router.mount(path, app=app)"),
    a("exception-keep-first", "        self.exception_handlers[exc_class_or_status_code] = handler\n", "        self.exception_handlers.setdefault(exc_class_or_status_code, handler)\n"),
    a("middleware-append", "self.user_middleware.insert(0, Middleware(middleware_class, *args, **kwargs))", "self.user_middleware.append(Middleware(middleware_class, *args, **kwargs))"),
    a("middleware-kwargs", "self.user_middleware.insert(0, Middleware(middleware_class, *args, **kwargs))", "self.user_middleware.insert(0, Middleware(middleware_class, **kwargs))"),
    a("http-assert", "        assert middleware_type == \"http\", 'Currently only middleware(\"http\") is supported.'\n", ""),
    a("ws-decorator-name", "self.router.add_websocket_route(path, func, name=name)", "self.router.add_websocket_route(path, func)"),
    r("add-route-front", "            include_in_schema=include_in_schema,\n        )\n        self.routes.append(route)", "            include_in_schema=include_in_schema,\n        )\n        self.routes.insert(0, route)"),
    r("add-ws-front", "        route = WebSocketRoute(path, endpoint=endpoint, name=name)\n        self.routes.append(route)", "        route = WebSocketRoute(path, endpoint=endpoint, name=name)\n        self.routes.insert(0, route)"),
    r("mount-path", "        self.path = path.rstrip(\"/\")\n", "        self.path = path\n"),
    r("routes-aliased", "self.routes = [] if routes is None else list(routes)", "self.routes = [] if routes is None else routes"),
    r("startup-aliased", "self.on_startup = [] if on_startup is None else list(on_startup)", "self.on_startup = [] if on_startup is None else list(reversed(on_startup))"),
    r("event-swapped", "        if event_type == \"startup\":\n            self.on_startup.append(func)\n        else:\n            self.on_shutdown.append(func)", "        if event_type == \"startup\":\n            self.on_startup.append(func)\n        else:\n            self.on_shutdown.insert(0, func)"),
    r("event-unchecked", "        assert event_type in (\"startup\", \"shutdown\")\n", ""),
    r("methods-case", "self.methods = {method.upper() for method in methods}", "self.methods = {method for method in methods}"),
    r("no-head", "                self.methods.add(\"HEAD\")", "                pass"),
    r("class-get", "        if methods is None:\n            self.methods = None", "        if methods is None:\n            self.methods = {\"GET\", \"HEAD\"} if inspect.isclass(endpoint) else None"),
    r("route-name-lost", "        self.name = get_name(endpoint) if name is None else name\n        self.include_in_schema", "        self.name = get_name(endpoint)\n        self.include_in_schema"),
    r("schema-lost", "        self.include_in_schema = include_in_schema", "        self.include_in_schema = True"),
    r("no-slash-check", "        assert path.startswith(\"/\"), \"Routed paths must start with '/'\"\n        self.path = path\n        self.endpoint = endpoint\n        self.name = get_name(endpoint) if name is None else name\n        self.include_in_schema", "        self.path = path\n        self.endpoint = endpoint\n        self.name = get_name(endpoint) if name is None else name\n        self.include_in_schema"),
    r("decorator-quiet", "        warnings.warn(\n            \"The `on_event` decorator is deprecated, and will be removed in version 1.0.0. \"\n            \"Refer to https://www.starlette.io/lifespan/ for recommended approach.\",\n            DeprecationWarning,\n        )\n", ""),
    r("startup-warning-always", "        if on_startup or on_shutdown:\n            warnings.warn(", "        if on_startup is not None or on_shutdown is not None:\n            warnings.warn("),
]
GOOD = [
    a("app-positional", "self.router.mount(path, app=app, name=name)", "self.router.mount(path, app, name)"),
    a("direct-routes", "self.router.add_websocket_route(path, route, name=name)", "from starlette.routing import WebSocketRoute\n        self.router.routes.append(WebSocketRoute(path, endpoint=route, name=name))"),
    a("deco-lambda", "            self.add_exception_handler(exc_class_or_status_code, func)\n            return func\n", "            self.exception_handlers.update({exc_class_or_status_code: func})\n            return func\n"),
    a("insert-slice", "self.user_middleware.insert(0, Middleware(middleware_class, *args, **kwargs))", "self.user_middleware[:0] = [Middleware(middleware_class, *args, **kwargs)]"),
    r("plus-equals", "        route = WebSocketRoute(path, endpoint=endpoint, name=name)\n        self.routes.append(route)", "        self.routes += [WebSocketRoute(path, endpoint, name=name)]"),
    r("copy-slice", "self.routes = [] if routes is None else list(routes)", "self.routes = list(routes or ())"),
    r("event-dict", "        if event_type == \"startup\":\n            self.on_startup.append(func)\n        else:\n            self.on_shutdown.append(func)", "        handlers = {\"startup\": self.on_startup, \"shutdown\": self.on_shutdown}\n        handlers[event_type].append(func)"),
    r("methods-loop", "self.methods = {method.upper() for method in methods}", "self.methods = set(map(str.upper, methods))"),
    r("name-or", "        self.name = get_name(endpoint) if name is None else name\n        self.include_in_schema", "        if name is None:\n            name = get_name(endpoint)\n        self.name = name\n        self.include_in_schema"),
    r("get-set", "            if \"GET\" in self.methods:", "            if {\"GET\"} <= self.methods:"),
]
BAD += [
    r("eq-or", "isinstance(other, Route)\n            and self.path", "isinstance(other, Route)\n            or self.path"),
    r("eq-methods", "            and self.methods == other.methods\n", ""),
    r("eq-mount-path", "isinstance(other, Mount) and self.path == other.path and self.app", "isinstance(other, Mount) and self.app"),
    r("eq-host", "isinstance(other, Host) and self.host == other.host and self.app == other.app", "isinstance(other, Host) and self.host == other.host"),
    r("eq-ws", "isinstance(other, WebSocketRoute) and self.path == other.path and self.endpoint == other.endpoint", "self.path == other.path and self.endpoint == other.endpoint"),
    r("eq-router", "self.routes == other.routes", "len(self.routes) == len(other.routes)"),
    r("eq-router-any", "self.routes == other.routes", "all(r in other.routes for r in self.routes)"),
]
GOOD += [
    r("eq-router-zip", "isinstance(other, Router) and self.routes == other.routes", "isinstance(other, Router) and len(self.routes) == len(other.routes) and all(a == b for a, b in zip(self.routes, other.routes))"),
    r("eq-tuple", "isinstance(other, Host) and self.host == other.host and self.app == other.app", "isinstance(other, Host) and (self.host, self.app) == (other.host, other.app)"),
]
