F = "routing.py"
U = "_utils.py"
MPP = """                remaining_path = "/" + matched_params.pop("path")
                matched_path = route_path[: -len(remaining_path)]
                path_params = dict(scope.get("path_params", {}))
                path_params.update(matched_params)
                child_scope = {
                    "path_params": path_params,"""
HOSTM = """                path_params = dict(scope.get("path_params", {}))
                path_params.update(matched_params)
                child_scope = {"path_params": path_params, "endpoint": self.app}"""
BAD = [
    ("prefix-letters", U, '    if path[len(root_path)] == "/":\n        return path[len(root_path) :]\n\n    return path', '    return path[len(root_path) :]'),
    ("strip-always", U, "    if not path.startswith(root_path):\n        return path\n", ""),
    ("replace", U, "        return path[len(root_path) :]", '        return path.replace(root_path, "")'),
    ("equal", U, '    if path == root_path:\n        return ""\n', '    if path == root_path:\n        return "/"\n'),
    ("lstrip", U, "        return path[len(root_path) :]", '        return path.lstrip(root_path)'),
    ("root-lost", F, '"root_path": root_path + matched_path', '"root_path": matched_path'),
    ("root-path", F, '"root_path": root_path + matched_path', '"root_path": root_path + self.path'),
    ("app-root", F, '"app_root_path": scope.get("app_root_path", root_path)', '"app_root_path": root_path'),
    ("app-root-empty", F, '"app_root_path": scope.get("app_root_path", root_path)', '"app_root_path": scope.get("app_root_path", "")'),
    ("app-root-or", F, '"app_root_path": scope.get("app_root_path", root_path)', '"app_root_path": scope.get("app_root_path") or root_path'),
    ("slice", F, 'matched_path = route_path[: -len(remaining_path)]', 'matched_path = route_path[: -len(matched_params["path"])]') if False else ("slice", F, MPP, MPP.replace('"/" + matched_params.pop("path")', 'matched_params.pop("path")').replace("route_path[: -len(remaining_path)]", "route_path[: -len(remaining_path) - 1 or None]").replace("- 1 or None", "")),
    ("keep-path", F, 'matched_params.pop("path")', 'matched_params["path"]'),
    ("mutated", F, MPP, MPP.replace('dict(scope.get("path_params", {}))', 'scope.get("path_params", {})')),
    ("outer-wins", F, MPP, MPP.replace("path_params.update(matched_params)", "path_params = {**matched_params, **path_params}")),
    ("host-outer-wins", F, HOSTM, HOSTM.replace("path_params.update(matched_params)", "path_params = {**matched_params, **path_params}")),
    ("host-mutated", F, HOSTM, HOSTM.replace('dict(scope.get("path_params", {}))', 'scope.get("path_params", {})')),
    ("host-port", F, 'host = headers.get("host", "").split(":")[0]', 'host = headers.get("host", "")'),
    ("host-rsplit", F, 'host = headers.get("host", "").split(":")[0]', 'host = headers.get("host", "").split(":")[-1]'),
    ("host-fwd", F, 'headers.get("host", "")', 'headers.get("x-forwarded-host", headers.get("host", ""))'),
    ("host-anchor", F, 'path_regex += re.escape(hostname) + r"\\Z"', 'path_regex += re.escape(hostname)'),
    ("host-noescape", F, 'path_regex += re.escape(hostname) + r"\\Z"', 'path_regex += hostname + r"\\Z"'),
    ("mount-slash", F, 'compile_path(self.path + "/{path:path}")', 'compile_path(self.path + "{path:path}")'),
    ("mount-noconv", F, 'matched_params[key] = self.param_convertors[key].convert(value)\n                remaining_path', 'pass\n                remaining_path'),
    ("mount-http", F, 'if scope["type"] in ("http", "websocket"):  # pragma: no branch', 'if scope["type"] == "http":'),
    ("mount-fullpath", F, '            route_path = get_route_path(scope)\n            match = self.path_regex.match(route_path)\n            if match:\n                matched_params = match.groupdict()\n                for key, value in matched_params.items():\n                    matched_params[key] = self.param_convertors[key].convert(value)\n                remaining_path', '            route_path = scope["path"]\n            match = self.path_regex.match(route_path)\n            if match:\n                matched_params = match.groupdict()\n                for key, value in matched_params.items():\n                    matched_params[key] = self.param_convertors[key].convert(value)\n                remaining_path'),
    ("set-path", F, '"root_path": root_path + matched_path,', '"root_path": root_path + matched_path,\n                    "path": remaining_path,'),
]
GOOD = [
    ("rewritten", U, """    if not path.startswith(root_path):
        return path

    if path == root_path:
        return ""

    if path[len(root_path)] == "/":
        return path[len(root_path) :]

    return path""", """    if path == root_path or path.startswith(root_path + "/"):
        return path[len(root_path) :]
    return path"""),
    ("removeprefix", U, "        return path[len(root_path) :]", "        return path.removeprefix(root_path)"),
    ("removesuffix", F, 'matched_path = route_path[: -len(remaining_path)]', 'matched_path = route_path.removesuffix(remaining_path)'),
    ("slice-len", F, 'matched_path = route_path[: -len(remaining_path)]', 'matched_path = route_path[: len(route_path) - len(remaining_path)]'),
    ("partition", F, 'host = headers.get("host", "").split(":")[0]', 'host, _, _ = headers.get("host", "").partition(":")'),
    ("comp", F, HOSTM, '                child_scope = {"endpoint": self.app, "path_params": {**scope.get("path_params", {}), **matched_params}}'),
]
