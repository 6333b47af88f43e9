S = "schemas.py"
BAD = [
    ("class patch", S, "\"patch\"", "\"PATCH\""),
    ("class options", S, ", \"options\"]", "]"),
    ("shallow", S, "{path: dict(operations) for path, operations in schema.get(\"paths\", {}).items()}", "dict(schema.get(\"paths\", {}))"),
    ("setdefault", S, 'schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}', 'schema.setdefault("paths", {})'),
    ("base-alias", S, "schema = dict(self.base_schema)", "schema = self.base_schema"),
    ("drop-base-paths", S, '{path: dict(operations) for path, operations in schema.get("paths", {}).items()}', "{}"),
    ("head", S, '                    if method == "HEAD":\n                        continue\n', ""),
    ("hidden", S, "elif not isinstance(route, Route) or not route.include_in_schema:", "elif not isinstance(route, Route):"),
    ("only-methods", S, '["get", "post", "put", "patch", "delete", "options"]', '["get", "post", "put", "patch", "options"]'),
    ("first-part", S, 'docstring.split("---")[-1]', 'docstring.split("---")[0]'),
    ("second-part", S, 'docstring = docstring.split("---")[-1]', 'docstring = docstring.partition("---")[2] or docstring'),
    ("overwrite-path", S, '            if endpoint.path not in schema["paths"]:\n                schema["paths"][endpoint.path] = {}', '            schema["paths"][endpoint.path] = {}'),
    ("keep-base-op", S, 'schema["paths"][endpoint.path][endpoint.http_method] = parsed', 'schema["paths"][endpoint.path].setdefault(endpoint.http_method, parsed)'),
    ("conv-mount", S, "path = self._remove_converter(route.path)\n                else", "path = route.path\n                else"),
    ("no-host", S, "isinstance(route, (Mount, Host))", "isinstance(route, Mount)"),
    ("regex-word", S, r're.compile(r":\w+}")', r're.compile(r":\w+}$")'),
    ("prose", S, "        if not isinstance(parsed, dict):\n            # A regular docstring (not yaml formatted) can return\n            # a simple string here, which wouldn't follow the schema.\n            return {}\n", ""),
    ("non-schema-path", S, "            if not parsed:\n                continue\n", ""),
    ("path-replace", S, 'path="".join((path, sub_endpoint.path))', "path=sub_endpoint.path"),
    ("upper", S, "endpoints_info.append(EndpointInfo(path, method.lower(), route.endpoint))", "endpoints_info.append(EndpointInfo(path, method, route.endpoint))"),
    ("media", S, 'media_type = "application/vnd.oai.openapi"', 'media_type = "application/openapi"'),
    ("ismethod", S, "inspect.isfunction(route.endpoint) or inspect.ismethod(route.endpoint)", "inspect.isfunction(route.endpoint)"),
    ("class-cache", S, "    def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:\n        schema = dict(self.base_schema)", "    _seen: dict[str, typing.Any] = {}\n\n    def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:\n        schema = dict(self.base_schema)\n        self._seen.update(schema)\n        schema = dict(self._seen)"),
    ("mount-hidden", S, "routes = route.routes or []", "routes = [r for r in route.routes or [] if not isinstance(r, Mount)]"),
]
GOOD = [
    ("get", S, '            if endpoint.path not in schema["paths"]:\n                schema["paths"][endpoint.path] = {}\n\n            schema["paths"][endpoint.path][endpoint.http_method] = parsed', '            schema["paths"].setdefault(endpoint.path, {})[endpoint.http_method] = parsed'),
    ("paths-local", S, '            if endpoint.path not in schema["paths"]:\n                schema["paths"][endpoint.path] = {}\n\n            schema["paths"][endpoint.path][endpoint.http_method] = parsed', '            operations = schema["paths"].get(endpoint.path)\n            if operations is None:\n                operations = {}\n                schema["paths"][endpoint.path] = operations\n            operations.update({endpoint.http_method: parsed})'),
    ("deepcopy", S, ["import re\n", 'schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}', "schema = dict(self.base_schema)"], ["import copy\nimport re\n", 'schema.setdefault("paths", {})', "schema = copy.deepcopy(self.base_schema)"]),
    ("rpartition", S, 'docstring.split("---")[-1]', 'docstring.rpartition("---")[2]'),
    ("extend-loop", S, '''                sub_endpoints = [
                    EndpointInfo(
                        path="".join((path, sub_endpoint.path)),
                        http_method=sub_endpoint.http_method,
                        func=sub_endpoint.func,
                    )
                    for sub_endpoint in self.get_endpoints(routes)
                ]
                endpoints_info.extend(sub_endpoints)''', '''                for sub_endpoint in self.get_endpoints(routes):
                    endpoints_info.append(sub_endpoint._replace(path=path + sub_endpoint.path))'''),
    ("getattr-none", S, '''                    if not hasattr(route.endpoint, method):
                        continue
                    func = getattr(route.endpoint, method)
                    endpoints_info''', '''                    func = getattr(route.endpoint, method, None)
                    if func is None:
                        continue
                    endpoints_info'''),
    ("lambda-sub", S, '_remove_converter_pattern.sub("}", path)', 're.sub(r":\\w+}", lambda m: "}", path)'),
]
