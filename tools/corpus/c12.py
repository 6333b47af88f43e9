F = "routing.py"
D = "datastructures.py"
R = "requests.py"
REP = """    result = ""
    idx = 0
    for match in PARAM_REGEX.finditer(path):
        key = match.group(1)
        if key in path_params:
            result += path[idx : match.start()]
            result += param_convertors[key].to_string(path_params.pop(key))
            idx = match.end()
    return result + path[idx:], path_params
"""
ROUTECHK = """        if name != self.name or seen_params != expected_params:
            raise NoMatchFound(name, path_params)

        path, remaining_params = replace_params(self.path_format, self.param_convertors, path_params)
        assert not remaining_params
        return URLPath(path=path, protocol="http")"""
MK = """                    url = route.url_path_for(remaining_name, **remaining_params)
                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol)"""
HK = """                    url = route.url_path_for(remaining_name, **remaining_params)
                    return URLPath(path=str(url), protocol=url.protocol, host=host)"""
ROUTER = """        for route in self.routes:
            try:
                return route.url_path_for(name, **path_params)
            except NoMatchFound:
                pass
        raise NoMatchFound(name, path_params)
"""
MISS = """        if self.param_convertors.keys() - path_params.keys() - {"path"}:
            raise NoMatchFound(name, path_params)
"""
BAD = [
    ('am-str-plain', 'convertors.py', '        value = str(value)\n        assert "/" not in value', '        assert "/" not in value'),
    ('am-float-zeros', 'convertors.py', '.rstrip("0").rstrip(".")', '.rstrip("0.")'),
    ("sequential", F, REP, '''    for key, value in list(path_params.items()):
        if "{" + key + "}" in path:
            convertor = param_convertors[key]
            value = convertor.to_string(value)
            path = path.replace("{" + key + "}", value)
            path_params.pop(key)
    return path, path_params
'''),
    ("no-tostring", F, "param_convertors[key].to_string(path_params.pop(key))", "str(path_params.pop(key))"),
    ("subset", F, ROUTECHK, ROUTECHK.replace("seen_params != expected_params", "not seen_params.issuperset(expected_params)").replace("        assert not remaining_params\n", "")),
    ("missing-ok", F, ROUTECHK, ROUTECHK.replace("seen_params != expected_params", "not seen_params <= expected_params")),
    ("proto", F, ROUTECHK, ROUTECHK.replace('"http"', '"websocket"')),
    ("proto-lost", F, MK, MK.replace(", protocol=url.protocol", "")),
    ("proto-http", F, MK, MK.replace("protocol=url.protocol", 'protocol="http"')),
    ("host-lost", F, HK, HK.replace(", host=host", "")),
    ("host-proto", F, HK, HK.replace(", protocol=url.protocol", "")),
    ("no-prefix", F, MK, MK.replace('path_prefix.rstrip("/") + str(url)', "str(url)")),
    ("no-rstrip", F, MK, MK.replace('path_prefix.rstrip("/")', "path_prefix")),
    ("no-lstrip", F, '            path_params["path"] = path_params["path"].lstrip("/")\n', ''),
    ("no-colon", F, "remaining_name = name[len(self.name) + 1 :]\n            path_kwarg", "remaining_name = name[len(self.name) :]\n            path_kwarg"),
    ("startswith", F, 'elif self.name is None or name.startswith(self.name + ":"):\n            if self.name is None:\n                # No mount name.\n                remaining_name = name\n            else:\n                # \'name\' matches "<mount_name>:<child_name>".\n                remaining_name = name[len(self.name) + 1 :]\n            path_kwarg', 'elif self.name is None or name.startswith(self.name):\n            if self.name is None:\n                # No mount name.\n                remaining_name = name\n            else:\n                # \'name\' matches "<mount_name>:<child_name>".\n                remaining_name = name[len(self.name) :].lstrip(":")\n            path_kwarg'),
    ("path-lost", F, '            if path_kwarg is not None:\n                remaining_params["path"] = path_kwarg\n', ''),
    ("path-none", F, '            if path_kwarg is not None:\n                remaining_params["path"] = path_kwarg\n', '            remaining_params["path"] = path_kwarg or ""\n'),
    ("last", F, ROUTER, ROUTER.replace("in self.routes", "in reversed(self.routes)")),
    ("none-first", F, ROUTER, ROUTER.replace("                pass", "                break")),
    ("secure", D, '"http": {True: "https", False: "http"}', '"http": {True: "https", False: "https"}'),
    ("ws-secure", D, 'return self.scheme in ("https", "wss")', 'return self.scheme == "https"'),
    ("netloc", D, "netloc = self.host or base_url.netloc", "netloc = base_url.netloc or self.host"),
    ("base-path", D, 'path = base_url.path.rstrip("/") + str(self)', 'path = base_url.path + str(self)'),
    ("base-path2", D, 'path = base_url.path.rstrip("/") + str(self)', 'path = str(self)'),
    ("root-path", R, 'app_root_path = base_url_scope.get("app_root_path", base_url_scope.get("root_path", ""))', 'app_root_path = base_url_scope.get("root_path", "")'),
    ("app-first", R, 'self.scope.get("router") or self.scope.get("app")', 'self.scope.get("app") or self.scope.get("router")'),
    ("app-only", R, 'self.scope.get("router") or self.scope.get("app")', 'self.scope.get("app")'),
    ("mount-extra", F, "            if not remaining_params:\n                return URLPath(path=path)", "            return URLPath(path=path)"),
    ("host-extra", F, "            if not remaining_params:\n                return URLPath(path=path, host=host)", "            return URLPath(path=path, host=host)"),
    ("int-neg", "convertors.py", 'assert value >= 0, "Negative integers are not supported"', 'assert value >= -1'),
    ("slash", "convertors.py", '        assert "/" not in value, "May not contain path separators"\n', ''),
    ("empty", "convertors.py", '        assert value, "Must not be empty"\n', ''),
]
GOOD = [
    ("dict-comp", F, REP, '''    parts = []
    idx = 0
    remaining = dict(path_params)
    for match in PARAM_REGEX.finditer(path):
        key = match.group(1)
        if key not in remaining:
            continue
        start, end = match.span()
        parts.append(path[idx:start])
        parts.append(param_convertors[key].to_string(remaining.pop(key)))
        idx = end
    parts.append(path[idx:])
    return "".join(parts), remaining
'''),
    ("set-eq", F, ROUTECHK, ROUTECHK.replace("seen_params != expected_params", "seen_params ^ expected_params")),
    ("helper", F, ROUTER, '''        for route in self.routes:
            url = self._try(route, name, path_params)
            if url is not None:
                return url
        raise NoMatchFound(name, path_params)

    def _try(self, route: typing.Any, name: str, path_params: typing.Any) -> typing.Any:
        try:
            return route.url_path_for(name, **path_params)
        except NoMatchFound:
            return None
'''),
    ("suppress", F, ROUTER, ROUTER.replace("            try:\n                return route.url_path_for(name, **path_params)\n            except NoMatchFound:\n                pass\n", "            with contextlib.suppress(NoMatchFound):\n                return route.url_path_for(name, **path_params)\n")),
    ("removeprefix", F, ["remaining_name = name[len(self.name) + 1 :]\n            path_kwarg"], ['remaining_name = name.split(":", 1)[1] if ":" not in self.name else name[len(f"{self.name}:") :]\n            path_kwarg']),
    ("secure", D, '''            scheme = {
                "http": {True: "https", False: "http"},
                "websocket": {True: "wss", False: "ws"},
            }[self.protocol][base_url.is_secure]''', '''            scheme = "http" if self.protocol == "http" else "ws"
            if base_url.scheme.endswith("s") and base_url.scheme != "ws":
                scheme += "s"'''),
    ("absurl", D, "        return URL(scheme=scheme, netloc=netloc, path=path)", '        return URL(f"{scheme}://{netloc}{path}")'),
    ("base", R, '''            path = app_root_path
            if not path.endswith("/"):
                path += "/"
            base_url_scope["path"] = path
            base_url_scope["query_string"] = b""
            base_url_scope["root_path"] = app_root_path
''', '''            base_url_scope.update(
                path=app_root_path if app_root_path.endswith("/") else app_root_path + "/", query_string=b"", root_path=app_root_path
            )
'''),
    ("miss", F, MISS, '''        missing = [key for key in self.param_convertors if key not in path_params and key != "path"]
        if missing:
            raise NoMatchFound(name, path_params)
'''),
]
