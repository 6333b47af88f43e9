F = "routing.py"
CV = "convertors.py"
CONV = """                for key, value in matched_params.items():
                    matched_params[key] = self.param_convertors[key].convert(value)
                path_params = dict(scope.get("path_params", {}))
                path_params.update(matched_params)
                child_scope = {"endpoint": self.endpoint, "path_params": path_params}
                if self.methods"""
BAD = [
    ("dollar", F, 'path_regex += re.escape(path[idx:]) + r"\\Z"', 'path_regex += re.escape(path[idx:]) + "$"'),
    ("noanchor", F, 'path_regex += re.escape(path[idx:]) + r"\\Z"', 'path_regex += re.escape(path[idx:])'),
    ("noescape", F, "path_regex += re.escape(path[idx : match.start()])", "path_regex += path[idx : match.start()]"),
    ("noescape-tail", F, 'path_regex += re.escape(path[idx:]) + r"\\Z"', 'path_regex += path[idx:] + r"\\Z"'),
    ("lower", F, 'return re.compile(path_regex)', 'return re.compile(path_regex, re.IGNORECASE)'),
    ("int-d", CV, 'regex = "[0-9]+"', 'regex = r"\\d+"'),
    ("str-plus", CV, 'regex = "[^/]+"', 'regex = "[^/]*"'),
    ("float-dot", CV, r'regex = r"[0-9]+(\.[0-9]+)?"', 'regex = "[0-9]+(.[0-9]+)?"'),
    ("uuid-lower", CV, 'regex = "[0-9a-fA-F]{8}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{12}"', 'regex = "[0-9a-fA-F]{8}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-f]{12}"'),
    ("path-plus", CV, 'regex = ".*"', 'regex = ".+"'),
    ("int-float", CV, "return int(value)", "return float(value)"),
    ("outer-wins", F, CONV, CONV.replace("""path_params = dict(scope.get("path_params", {}))
                path_params.update(matched_params)""", """path_params = {**matched_params, **scope.get("path_params", {})}""")),
    ("outer-mutated", F, CONV, CONV.replace('dict(scope.get("path_params", {}))', 'scope.get("path_params", {})')),
    ("outer-setdefault", F, CONV, CONV.replace('dict(scope.get("path_params", {}))', 'scope.setdefault("path_params", {})')),
    ("outer-lost", F, CONV, CONV.replace('dict(scope.get("path_params", {}))', '{}')),
    ("noconvert", F, CONV, CONV.replace("self.param_convertors[key].convert(value)", "value")),
    ("method-none", F, "if self.methods and scope[\"method\"] not in self.methods:\n                    return Match.PARTIAL, child_scope", "if self.methods and scope[\"method\"] not in self.methods:\n                    return Match.NONE, {}"),
    ("no-head", F, '                self.methods.add("HEAD")', '                pass'),
    ("upper", F, "self.methods = {method.upper() for method in methods}", "self.methods = set(methods)"),
    ("405-run", F, 'if self.methods and scope["method"] not in self.methods:\n            headers', 'if self.methods and scope["method"] not in self.methods and scope["method"] != "OPTIONS":\n            headers'),
    ("allow-all", F, 'headers = {"Allow": ", ".join(self.methods)}', 'headers = {"Allow": ", ".join(self.methods | {"OPTIONS"})}'),
    ("ws-http", F, 'if scope["type"] == "websocket":\n            route_path', 'if scope["type"] in ("http", "websocket"):\n            route_path'),
    ("lowerpath", F, CONV.splitlines()[0], CONV.splitlines()[0]) if False else ("subject-lower", F, "match = self.path_regex.match(route_path)\n            if match:\n                matched_params = match.groupdict()\n                for key, value in matched_params.items():\n                    matched_params[key] = self.param_convertors[key].convert(value)\n                path_params = dict(scope.get(\"path_params\", {}))\n                path_params.update(matched_params)\n                child_scope = {\"endpoint\": self.endpoint, \"path_params\": path_params}\n                if", "match = self.path_regex.match(route_path.rstrip(\"/\") or \"/\")\n            if match:\n                matched_params = match.groupdict()\n                for key, value in matched_params.items():\n                    matched_params[key] = self.param_convertors[key].convert(value)\n                path_params = dict(scope.get(\"path_params\", {}))\n                path_params.update(matched_params)\n                child_scope = {\"endpoint\": self.endpoint, \"path_params\": path_params}\n                if"),
    ("standalone-nomerge", F, "        scope.update(child_scope)\n        await self.handle(scope, receive, send)", "        await self.handle(scope, receive, send)"),
    ("dup-ok", F, "    if duplicated_params:", "    if len(duplicated_params) > 1:"),
]
GOOD = [
    ("search", F, 'path_regex = "^"', 'path_regex = ""', ),
    ("fullmatch", F, ['path_regex += re.escape(path[idx:]) + r"\\Z"', "match = self.path_regex.match(route_path)\n            if match:\n                matched_params = match.groupdict()\n                for key, value in matched_params.items():\n                    matched_params[key] = self.param_convertors[key].convert(value)\n                path_params = dict(scope.get(\"path_params\", {}))\n                path_params.update(matched_params)\n                child_scope = {\"endpoint\": self.endpoint, \"path_params\": path_params}\n                if"],
     ['path_regex += re.escape(path[idx:]) + r"\\Z"', "match = self.path_regex.fullmatch(route_path)\n            if match is not None:\n                matched_params = {key: self.param_convertors[key].convert(value) for key, value in match.groupdict().items()}\n                path_params = {**scope.get(\"path_params\", {}), **matched_params}\n                child_scope = {\"path_params\": path_params, \"endpoint\": self.endpoint}\n                if"]),
    ("verbose", F, 'path_regex += f"(?P<{param_name}>{convertor.regex})"', 'path_regex += "(?P<%s>(?:%s))" % (param_name, convertor.regex)'),
    ("intre", CV, 'regex = "[0-9]+"', 'regex = "[0-9][0-9]*"'),
    ("allowed-helper", F, ['if self.methods and scope["method"] not in self.methods:\n                    return Match.PARTIAL, child_scope\n                else:\n                    return Match.FULL, child_scope', 'if self.methods and scope["method"] not in self.methods:\n            headers', "    def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:\n        seen_params = set(path_params.keys())\n        expected_params = set(self.param_convertors.keys())\n\n        if name != self.name or seen_params != expected_params:\n            raise NoMatchFound(name, path_params)\n\n        path, remaining_params = replace_params(self.path_format, self.param_convertors, path_params)\n        assert not remaining_params\n        return URLPath(path=path, protocol=\"http\")"],
     ['return (Match.FULL if self._allows(scope) else Match.PARTIAL), child_scope', 'if not self._allows(scope):\n            headers', "    def _allows(self, scope):\n        return not self.methods or scope[\"method\"] in self.methods\n\n    def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:\n        seen_params = set(path_params.keys())\n        expected_params = set(self.param_convertors.keys())\n\n        if name != self.name or seen_params != expected_params:\n            raise NoMatchFound(name, path_params)\n\n        path, remaining_params = replace_params(self.path_format, self.param_convertors, path_params)\n        assert not remaining_params\n        return URLPath(path=path, protocol=\"http\")"]),
    ("sorted-allow", F, '", ".join(self.methods)', '", ".join(sorted(self.methods))'),
]
